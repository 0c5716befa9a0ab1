from p_c import CHECKS
