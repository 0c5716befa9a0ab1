from p_y import CHECKS
