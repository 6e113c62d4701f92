"""ElementTree, as trusted contracts: an element is a tag, a dict of attributes, text, tail and
a list of child elements."""
from xml.etree import ElementTree
from common import *

ET = 'xml.etree.ElementTree.'


def element(E, args, kw):
    o = E.alloc('xmlelem')
    tag = args[0] if args else kw.get('tag')
    E.write('tag', o, tag)
    a = args[1] if len(args) > 1 else kw.get('attrib')
    d = E.newdict(DVal())
    if a is not None:
        E.lib.dict_update(E, d, a)
    for k, v in kw.items():
        if k not in ('attrib', 'tag'):
            E.lib.setitem(E, d, k, v)
    E.write('attrib', o, d)
    E.write('text', o, None)
    E.write('tail', o, None)
    E.write('children', o, E.newlist(Seq()))
    return o


def subelement(E, args, kw):
    o = element(E, args[1:], kw)
    kids = E.getfield(args[0], 'children')[0]
    E.lib.list_method(E, kids, 'append', [o], {})
    return o


def elem_attr(E, o, name):
    if name in ('append', 'extend', 'insert', 'remove'):
        return (BMethod('list', name, E.getfield(o, 'children')[0]),)
    if name in ('get', 'set', 'items', 'keys'):
        d = E.getfield(o, 'attrib')[0]
        if name == 'set':
            return (Native(lambda E, a, k: E.lib.setitem(E, d, a[0], a[1])),)
        return (BMethod('dict', name, d),)
    raise Unsupported('Element.%s' % name)


def install(E):
    E.ext_contract[ET + 'Element'] = element
    E.ext_contract[ET + 'SubElement'] = subelement
    E.ext_contract[ET + 'tostring'] = lambda E, a, k: E.lib.opaque_str(E, 'tostring', a[0]) if False else 'xml'
    E.obj_attr['xmlelem'] = elem_attr
    E.lib.EXT['xml.etree.ElementTree', 'QName'] = BCls(ElementTree.QName)
    E.lib.EXT['xml.etree.ElementTree', 'ParseError'] = BCls(ElementTree.ParseError)


def toolbox_stubs(E):
    """third-party modules that are not installed: their exception classes"""
    for mod, names in (('toolbox', ('ToolboxError', 'ToolboxWarning')),):
        for n in names:
            base = Warning if 'Warning' in n else Exception
            E.lib.EXT[mod, n] = BCls(type(n, (base,), {}))
