from p_f import CHECKS
