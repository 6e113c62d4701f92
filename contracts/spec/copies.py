def copyof(x):
    raise NotImplementedError()


def copies(xs):
    return [copyof(x) for x in xs]
