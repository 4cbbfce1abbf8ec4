class Line2D(object):
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs
