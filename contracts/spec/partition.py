"""What goes where."""


def entries(igts, fn, find, default):
    """(output file, input file, number) of every IGT"""
    out = []
    for i, igt in enumerate(igts):
        k = find(igt)
        if k is None:
            k = default
        out.append((k.replace(':', '-'), fn, i))
    return out


def content(files, igts):
    """the IGTs of a group: files in order, IGTs in order"""
    return [igt for fn, numbers in files for i, igt in enumerate(igts(fn)) if i in numbers]


def outputs(groups, outdir, join):
    return [(join(outdir, key + '.xml'), files) for key, files in groups]


def indexed(infiles, path, default):
    return [(fn, path, default) for fn in infiles]
