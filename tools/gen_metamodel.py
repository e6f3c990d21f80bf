"""Builds /verif/dst/metamodel.json, the frozen CIM schema the oracles use.

Run once, by hand, at the pinned commit; no check runs it.  The source of truth
is the UML-derived ecore models under /repo/Model (target type, multiplicity,
opposite); the generated Python classes are read for attribute defaults and for
the hand-made additions the ecore files do not have, which are listed in
PYTHON_ONLY below.  Every disagreement between the two is printed.
"""
import ast, importlib, inspect, json, os, re, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, '/repo'); sys.dont_write_bytecode = True
XSI = '{http://www.w3.org/2001/XMLSchema-instance}type'

# (class, ref) -> (target, opposite or None); CIM15 only, no ecore counterpart.
PYTHON_ONLY = {
    ('ACLineSegment', 'ACLineSegmentPhases'): ('ACLineSegmentPhase', 'ACLineSegment'),
    ('ACLineSegmentPhase', 'ACLineSegment'): ('ACLineSegment', 'ACLineSegmentPhases'),
    ('ACLineSegment', 'CurrentTemperatureCurves'): ('CurrentTemperatureCurve', 'ACLineSegments'),
    ('CurrentTemperatureCurve', 'ACLineSegments'): ('ACLineSegment', 'CurrentTemperatureCurves'),
    ('ACLineSegment', 'PerLengthImpedance'): ('PerLengthImpedance', None),  # modelled apart, see C16
    ('TransformerEnd', 'BaseVoltage'): ('BaseVoltage', 'TransformerEnd'),
    ('BaseVoltage', 'TransformerEnd'): ('TransformerEnd', 'BaseVoltage'),
    ('Equipment', 'OperationalLimitSet'): ('OperationalLimitSet', 'Equipment'),
    ('OperationalLimitSet', 'Equipment'): ('Equipment', 'OperationalLimitSet'),
    ('CheckPoint', 'Equipment'): ('Equipment', None),
    ('VoltageCheckPoint', 'LowerLimitsCurve'): ('VoltageTimeCurve', None),
    ('VoltageCheckPoint', 'UpperLimitsCurve'): ('VoltageTimeCurve', None),
    ('VoltageCheckPoint', 'VoltageLimitSet'): ('VoltageLimitSet', None),
}


def load(path, top):
    root = ET.parse(path).getroot()
    classes, enums = {}, {}

    def walk(p, pkg, frag):
        for c in p.findall('eClassifiers'):
            t = c.get(XSI).split(':')[1]; n = c.get('name'); f = frag + '/' + n
            if t == 'EClass':
                feats = [dict(kind=s.get(XSI).split(':')[1], name=s.get('name'), type=s.get('eType'),
                              opp=s.get('eOpposite'), many=s.get('upperBound') not in (None, '1'))
                         for s in c.findall('eStructuralFeatures')]
                classes[f] = dict(pkg=pkg, name=n, sup=c.get('eSuperTypes'), feats=feats)
            elif t == 'EEnum':
                enums[f] = dict(name=n, lits=[l.get('name') for l in c.findall('eLiterals')])
        for s in p.findall('eSubpackages'):
            walk(s, pkg + '.' + s.get('name'), frag + '/' + s.get('name'))
    walk(root, top, '#/')
    return root.get('nsURI'), classes, enums


def main():
    tops = []
    for r, d, f in os.walk('/repo/Model'):
        for n in f:
            parts = os.path.relpath(os.path.join(r, n), '/repo/Model')[:-6].split('/')
            if parts[-1] == parts[0]:
                parts = parts[:-1]
            tops.append((os.path.join(r, n), '.'.join(parts)))
    out = {}
    for path, top in sorted(tops):
        ns, ecl, een = load(path, top)
        mod = importlib.import_module(top)
        byname = {}
        for f, c in ecl.items():
            byname.setdefault(c['name'], []).append((f, c))
        classes = {}
        enumlits = {}
        for e in een.values():
            enumlits.setdefault(e['name'], e['lits'])
        for name, mname in mod.packageMap.items():
            k = getattr(importlib.import_module(mname), name)
            bases = [b for b in k.__mro__[1:] if b is not object]
            sup = bases[0].__name__ if bases else None
            ec = byname.get(name, [])
            if len(ec) > 1:
                print('AMBIGUOUS', top, name, [c['pkg'] for _, c in ec], mname)
                ec = [x for x in ec if {y['name'] for y in x[1]['feats']} == set(k._attrs) | set(k._refs)] or ec
            feats = {}
            for f, c in ec[:1]:
                for x in c['feats']:
                    feats[x['name']] = x
            attrs = []
            for a in k.__dict__['_attrs']:
                if a == 'UUID':
                    continue
                enum = k._enums.get(a)
                typ = 'enum' if enum else k._attr_types[a].__name__
                dflt = inspect.signature(k.__init__).parameters[a].default
                x = feats.get(a)
                if x is None:
                    print('PYATTR', top, name, a)
                lits = enumlits.get(enum, []) if enum else None
                if enum and not lits:
                    print('NOLITS', top, name, a, enum)
                attrs.append([a, typ, dflt, enum, lits])
            refs = []
            for r_ in k.__dict__['_refs']:
                x = feats.get(r_)
                many = r_ in k._many_refs
                isprop = isinstance(k.__dict__.get(r_), property)
                inv = None
                if x is not None:
                    tgt = x['type'].split('/')[-1]
                    if x['many'] != many: print('MANYDIFF', top, name, r_)
                    if x['opp']: inv = x['opp'].split('/')[-1]
                    if bool(inv) != isprop: print('PROPDIFF', top, name, r_, inv, isprop)
                    if tgt not in mod.packageMap: print('TGT', top, name, r_, x['type'])
                else:
                    tgt, inv = PYTHON_ONLY[name, r_]
                    print('PYREF', top, name, r_, 'many' if many else 'one', 'prop' if isprop else 'plain')
                refs.append([r_, tgt, many, inv])
            classes[name] = dict(mod=mname, sup=sup, attrs=attrs, refs=refs)
            if len(bases) > 1 and sup not in mod.packageMap: print('SUPNOTMAP', top, name, sup)
            if sup and bases[0] is not getattr(importlib.import_module(mod.packageMap[sup]), sup): print('SUPOTHER', top, name, sup, bases[0].__module__)
        out[top] = dict(ns=ns, ver=mod.nsURI, classes=classes)
    return out

if __name__ == '__main__':
    o = main()
    json.dump(o, open(sys.argv[1], 'w'), separators=(',', ':'), sort_keys=True)
