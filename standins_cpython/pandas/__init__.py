class DataFrame(object):
    pass

