"""string.Formatter, as far as its methods are not contracts."""


class Formatter(object):
    def format(self, format_string, *args, **kwargs):
        return self.vformat(format_string, args, kwargs)

    def vformat(self, format_string, args, kwargs):
        raise NotImplementedError

    def parse(self, format_string):
        raise NotImplementedError


def head(name):
    return name.split('[')[0].split('.')[0]


def prepared(tokens, given):
    """fields that are given stay fields; others, and literal braces, become literal text"""
    out = ''
    for lit, name, spec, conv in tokens:
        out += lit
        if name is not None:
            field = name + ('!' + conv if conv else '') + (':' + spec if spec else '')
            if head(name) in given:
                out += '{' + field + '}'
            else:
                out += '{{' + field + '}}'
    return out
