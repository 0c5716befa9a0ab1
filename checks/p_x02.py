from p_x import CHECKS
