from p_r import CHECKS
