class Job:
    """one generator specification + driver + trace specification"""
    def __init__(self, name, gen, gen_consts, driver, trace, trace_consts, limit=20, gen_mode="ser"):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})
