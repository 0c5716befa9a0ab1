from p_m import CHECKS
