from p_p import CHECKS
