"""C09: XML documents are replaced atomically and load back intact."""
from sim.core import Violation, HarnessError
from checks.storelib import StoreCheck

TAGS = ['aircraft', 'wing', 'Main_Wing', 'x', 'fuselage.body', 'a-b', 'segment_1', '_u', 'n1', 'ELEMENT']
TEXT = ['', '', '1.5', 'hello world', 'a < b & c > d', '"q" \'s\'', u'\u00e9\u2603 \U0001F680', 'two\nlines', 'a\tb', '[1.0, 2.0]', 'y' * 9000, ']]>', '<!-- x -->', '&amp;', '0']
ATTR = ['', 'v', 'a"b', "it's", '<&>', u'\u00fc', '3.0', 'x  y', 'tab\there', 'new\nline']


def gen_elem(rng, depth):
    kids = []
    if depth < 4 and rng.random() < (.9 if depth == 0 else .45):
        kids = [gen_elem(rng, depth + 1) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if kids and rng.random() < .3: kids.append(dict(kids[0]))        # equal tags, order matters
    return dict(tag=rng.choice(TAGS), attr={k: rng.choice(ATTR) for k in rng.sample(['id', 'name', 'units', 'xml_type', 'b'], rng.choice([0, 0, 1, 2, 3]))},
                text=rng.choice(TEXT), kids=kids)


class C09(StoreCheck):
    prop = 'C09'
    n_quick, n_thorough = 2600, 120000
    check_open = True
    rule = ('seeded sequences of XML saves of random documents (built as documents or translated from nested structures), each in its own '
            'process that may meet a disk fault, an interrupt, an allocation failure or a crash at any file operation or source line; a fresh '
            'process loads the file after each; non-trivial = at least one fault fired')
    real = ['SUAVE.Input_Output.XML.save', 'SUAVE.Input_Output.XML.load', 'SUAVE.Input_Output.XML.Data', 'real files']
    stub = ['the disk below raw file writes (fault injection)']
    assumptions = ['text holds only characters XML can represent; leading and trailing white space of text is not significant',
                   'a crash is a process crash: bytes handed to the operating system survive it']
    expected_probes = ['failed_save_checked', 'nothing_saved_yet']
    state_measure = 'distinct (outcome of the save, planned faults, whether a previous document existed)'
    names = ['doc.xml', 'sub/vehicle.xml']

    def setup(self):
        import SUAVE, SUAVE.Input_Output.XML, xml.sax.expatreader

    def gen(self, rng, tier, i):
        return dict(ops=self.gen_ops(rng, tier, i))

    def gen_doc(self, rng):
        if rng.random() < .25:
            return dict(k='dict', v=self.gen_dict(rng, 0))
        d = gen_elem(rng, 0)
        d['k'] = 'elem'
        if rng.random() < .12:
            n = d
            while n['kids'] and rng.random() < .7: n = rng.choice(n['kids'])
            n['bad'] = rng.choice(['text', 'attr', 'attrkey', 'tag', 'cycle'])
        return d

    def gen_dict(self, rng, depth):
        out = []
        for k in rng.sample(['wing', 'span', 'area', 'tip', 'root', 'n_x'], rng.choice([1, 2, 3, 4])):
            if rng.random() < .35 and depth < 3: out.append([k, self.gen_dict(rng, depth + 1)])
            else: out.append([k, rng.choice([1.5, 0, 'text', True, 'a<b', -2.25, 10 ** 20])])
        return out

    def storable(self, spec):
        if spec.get('k') == 'dict': return True
        return not spec.get('bad') and all(self.storable(k) for k in spec['kids'])

    def build(self, spec):
        from SUAVE.Input_Output.XML.Data import Data as XD
        from SUAVE.Core import Data
        if spec.get('k') == 'dict':
            def mk(v):
                d = Data()
                for k, x in v: d[k] = mk(x) if isinstance(x, list) else x
                return d
            return mk(spec['v'])
        root = []

        def el(s, parent):
            if parent is None: e = XD(); e.tag = s['tag']
            elif len(s['attr']) % 2: e = parent.new_element(s['tag'])
            else: e = XD(); e.tag = s['tag']; parent.elements.append(e)
            for k, v in s['attr'].items(): e.attributes[k] = v
            e.content = s['text']
            for k in s['kids']: el(k, e)
            b = s.get('bad')
            if b == 'text': e.content = 5.0
            elif b == 'attr': e.attributes['id'] = 7
            elif b == 'attrkey': e.attributes[3] = 'x'
            elif b == 'tag': e.tag = 12
            elif b == 'cycle': e.elements.append(e)
            elif b == 'surrogate': e.content = 'x\ud800'
            return e
        return el(spec, None)

    def why_not(self, spec):
        return 'a document XML cannot represent'

    def save(self, data, path):
        import SUAVE
        SUAVE.Input_Output.XML.save(data, path)

    def load(self, path):
        import SUAVE
        return SUAVE.Input_Output.XML.load(path)

    def compare(self, spec, obj):
        if spec.get('k') == 'dict':
            def conv(tag, v):
                return dict(tag=tag, attr={}, text='' if isinstance(v, list) else str(v), kids=[conv(k, x) for k, x in v] if isinstance(v, list) else [])
            spec = conv('node', spec['v'])
        return cmp(spec, obj, '')

    def shrink_doc(self, d):
        if d.get('k') == 'dict': return
        for k in range(len(d['kids'])):
            yield dict(d, kids=d['kids'][:k] + d['kids'][k + 1:])
            for s in self.shrink_doc(d['kids'][k]):
                yield dict(d, kids=d['kids'][:k] + [s] + d['kids'][k + 1:])
        if d['attr']: yield dict(d, attr={})
        if d['text']: yield dict(d, text='')


def cmp(s, o, path):
    path = path + '/' + s['tag']
    if getattr(o, 'tag', None) != s['tag']: return '%s has tag %r' % (path, getattr(o, 'tag', None))
    a = dict(o.attributes.items())
    if a != s['attr']: return '%s has attributes %s instead of %s' % (path, a, s['attr'])
    if (o.content or '').strip() != s['text'].strip(): return '%s has text %r instead of %r' % (path, o.content[:40], s['text'][:40])
    if len(o.elements) != len(s['kids']): return '%s has %d elements instead of %d' % (path, len(o.elements), len(s['kids']))
    for x, y in zip(s['kids'], o.elements):
        m = cmp(x, y, path)
        if m: return m
    return None


CHECK = C09()
