#!/usr/bin/env python3
"""gen_cfg.py OUTDIR INCLUDE_PKG FILE.cfg : executes a dynamic_reconfigure .cfg of the repository with a stand-in
parameter generator and writes the Config header the node code includes."""
import sys, types, os
outdir, incpkg, path = sys.argv[1:4]
class PG:
    def __init__(self): self.params = []
    def const(self, name, t, value, descr): return dict(name=name, type=t, value=value, description=descr)
    def enum(self, consts, descr): return dict(enum=consts, descr=descr)
    def add_group(self, *a, **k): return self
    def add(self, name, paramtype, level, description='', default=None, min=None, max=None, edit_method=''):
        self.params.append((name, paramtype, level, default, min, max))
    def generate(self, pkg, node, name):
        T = dict(double='double', int='int', bool='bool', str='std::string')
        Z = dict(double=0.0, int=0, bool=False, str='')
        def lit(t, v, kind):
            if v is None:
                if kind == 'min': v = {'double': '-std::numeric_limits<double>::infinity()', 'int': '-2147483647', 'bool': 'false', 'str': 'std::string()'}[t]; return v
                if kind == 'max': v = {'double': 'std::numeric_limits<double>::infinity()', 'int': '2147483647', 'bool': 'true', 'str': 'std::string()'}[t]; return v
                v = Z[t]
            if t == 'str': return 'std::string("%s")' % v
            if t == 'bool': return 'true' if v else 'false'
            if t == 'int': return str(int(v))
            return repr(float(v))
        c = name + 'Config'
        g = ('SHIM_CFG_%s_%s' % (incpkg, c)).upper()
        o = '// generated from %s\n#ifndef %s\n#define %s\n#include <limits>\n#include <string>\nnamespace %s {\nclass %s {\n public:\n' % (os.path.basename(path), g, g, pkg, c)
        for n, t, *_ in self.params: o += '  %s %s = %s;\n' % (T[t], n, lit(t, None, 'z'))
        for fn, idx, kind in (('__getDefault__', 3, 'd'), ('__getMin__', 4, 'min'), ('__getMax__', 5, 'max')):
            o += '  static const %s& %s() {\n    static const %s c_ = [] { %s c;\n' % (c, fn, c, c)
            for p in self.params: o += '      c.%s = %s;\n' % (p[0], lit(p[1], p[idx], kind))
            o += '      return c; }();\n    return c_;\n  }\n'
        o += '  void __clamp__() {\n    const %s& a_ = __getMin__();\n    const %s& b_ = __getMax__();\n    (void)a_; (void)b_;\n' % (c, c)
        for n, t, *_ in self.params:
            if t in ('double', 'int'): o += '    if (%s < a_.%s) %s = a_.%s;\n    if (%s > b_.%s) %s = b_.%s;\n' % ((n,) * 8)
        o += '  }\n  template <class F> static void shimForEachNumeric(F f) {\n'
        for n, t, *_ in self.params:
            if t in ('double', 'int'): o += '    f("%s", &%s::%s);\n' % (n, c, n)
        o += '  }\n};\n}\n#endif\n'
        d = os.path.join(outdir, incpkg); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, c + '.h'), 'w').write(o)
        return 0
m = types.ModuleType('dynamic_reconfigure.parameter_generator_catkin')
m.ParameterGenerator = PG
m.double_t, m.int_t, m.bool_t, m.str_t = 'double', 'int', 'bool', 'str'
m.__all__ = ['ParameterGenerator', 'double_t', 'int_t', 'bool_t', 'str_t']
pk = types.ModuleType('dynamic_reconfigure'); pk.parameter_generator_catkin = m
sys.modules['dynamic_reconfigure'] = pk; sys.modules['dynamic_reconfigure.parameter_generator_catkin'] = m
try:
    exec(compile(open(path).read(), path, 'exec'), {'__name__': '__main__', '__file__': path})
except SystemExit as e:
    sys.exit(e.code or 0)
