from p_o import CHECKS
