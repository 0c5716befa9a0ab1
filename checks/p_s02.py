from p_s import CHECKS
