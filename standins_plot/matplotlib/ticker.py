class Formatter(object):
    def __init__(self, *args, **kwargs):
        pass


class ScalarFormatter(Formatter):
    pass


class FormatStrFormatter(Formatter):
    pass
