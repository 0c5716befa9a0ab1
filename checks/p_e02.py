from p_e import CHECKS
