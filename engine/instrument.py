#!/usr/bin/env python3
"""Rewrites textual LLVM IR: every operation on `double` becomes a call into the symbolic runtime (symrt.cpp).

usage: instrument.py in.ll out.ll report.json
Nothing in here knows about geom3d: it is a generic rewriting of the compiler's output.
"""
import re, sys, json

INTRINSICS = {
    'llvm.sqrt.f64': ('sym_sqrt', 1), 'llvm.fabs.f64': ('sym_fabs', 1), 'llvm.sin.f64': ('sym_sin', 1), 'llvm.cos.f64': ('sym_cos', 1),
    'llvm.tan.f64': ('sym_tan', 1), 'llvm.floor.f64': ('sym_floor', 1), 'llvm.ceil.f64': ('sym_ceil', 1), 'llvm.trunc.f64': ('sym_trunc', 1),
    'llvm.round.f64': ('sym_round', 1), 'llvm.rint.f64': ('sym_rint', 1), 'llvm.nearbyint.f64': ('sym_rint', 1), 'llvm.roundeven.f64': ('sym_rint', 1),
    'llvm.minnum.f64': ('sym_min', 2), 'llvm.maxnum.f64': ('sym_max', 2), 'llvm.minimumnum.f64': ('sym_min', 2), 'llvm.maximumnum.f64': ('sym_max', 2),
    'llvm.minimum.f64': ('sym_min', 2), 'llvm.maximum.f64': ('sym_max', 2), 'llvm.copysign.f64': ('sym_copysign', 2),
    'llvm.pow.f64': ('sym_pow', 2), 'llvm.fma.f64': ('sym_fma', 3), 'llvm.fmuladd.f64': ('sym_fma', 3), 'llvm.exp.f64': ('sym_exp', 1), 'llvm.log.f64': ('sym_log', 1),
    'atan2': ('sym_atan2', 2), 'atan': ('sym_atan', 1), 'acos': ('sym_acos', 1), 'asin': ('sym_asin', 1), 'tan': ('sym_tan', 1), 'hypot': ('sym_hypot', 2), 'cbrt': ('sym_cbrt', 1),
}
SIMPLE_DECLS = ['fadd', 'fsub', 'fmul', 'fdiv', 'frem']
PREDS = ['olt', 'ole', 'ogt', 'oge', 'oeq', 'uno', 'ord', 'une', 'one', 'ueq', 'ult', 'ule', 'ugt', 'uge']
VAL = r'(%[\w.$"-]+|f0x[0-9A-Fa-f]+|[-+0-9][\w.+-]*|undef|poison|zeroinitializer)'

re_bin = re.compile(r'^(\s+%\S+ = )(fadd|fsub|fmul|fdiv|frem)((?: (?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast))*) double ' + VAL + ', ' + VAL + r'(.*)$')
re_neg = re.compile(r'^(\s+%\S+ = )fneg((?: \w+)*?) double ' + VAL + r'(.*)$')
re_cmp = re.compile(r'^(\s+%\S+ = )fcmp((?: (?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast))*) (\w+) double ' + VAL + ', ' + VAL + r'(.*)$')
re_bit = re.compile(r'^(\s+%\S+ = )bitcast double ' + VAL + r' to i64(.*)$')
re_trunc = re.compile(r'^(\s+%\S+ = )fptrunc((?: \w+)*?) double ' + VAL + r' to float(.*)$')
re_ext = re.compile(r'^(\s+%\S+ = )fpext((?: \w+)*?) float ' + VAL + r' to double(.*)$')
re_toi = re.compile(r'^(\s+%\S+ = )(fptosi|fptoui) double ' + VAL + r' to i(\d+)(.*)$')
re_sat = re.compile(r'call (?:noundef )?i(\d+) @llvm\.(fptosi|fptoui)\.sat\.i(\d+)\.f64\(double ' + VAL + r'\)(.*)$')
re_call = re.compile(r'@("?)([\w.$]+)\1\(')
re_def = re.compile(r'^define .*?@("?)([\w.$]+)\1\(')
re_decl = re.compile(r'^declare (.*?)@("?)([\w.$]+)\2\((.*)$')
# printing and parsing of floating-point numbers (core): replaced by models defined next to the harness interface
re_fmt = re.compile(r'@_RNvX\w*?4core3fmt5float([df])NtB\w*?_(?:7Display|5Debug|8LowerExp|8UpperExp)3fmt\b')
re_str = re.compile(r'@_RNvX\w*?4core3num\w*?([df])Nt\w*?7FromStr8from_str\b')
re_ldd = re.compile(r'^(\s+)(%\S+)( = load double, .*)$')
re_parse = re.compile(r'@_RINvM\w*?4core3stre5parse([df])E\w*')
re_tostr = re.compile(r'@_RNvX\w*?5alloc6string([df])Nt\w*?8ToString9to_string\w*')
re_fmtref = re.compile(r'@_RNvX\w*?4core3fmtR([df])Nt\w*?(?:7Display|5Debug|8LowerExp|8UpperExp)3fmt\w*')
TEXT = ((re_fmt, 'fmt'), (re_str, 'from_str'), (re_parse, 'from_str'), (re_tostr, 'to_string'), (re_fmtref, 'fmt_ref'))
STUBS = ('sym_to_string_f64', 'sym_to_string_f32', 'sym_fmt_ref_f64', 'sym_fmt_ref_f32', 'sym_fmt_f64', 'sym_fmt_f32', 'sym_from_str_f64', 'sym_from_str_f32')
def stub(m, kind): return f'@sym_{kind}_f' + {'d': '64', 'f': '32'}[m.group(1)]

# functions replaced by a model, recognised by their (v0-)mangled path
def override(name, line):
    if not name.startswith('_R') and not name.startswith('_ZN'): return None
    if re.search(r'ulps_eqd.*6UlpsEq7ulps_eq', name) and 'ptr' in line and 'i32' in line: return 'ulps'
    if name.endswith('9total_cmp') and 'f64' in name: return 'total'
    if re.search(r'16is_sign_negative|16is_sign_positive', name) and 'double' in line and ('f64' in name or 'NvMNt' in name): return 'neg' if 'negative' in name else 'pos'
    return None

def main(src, dst, rep):
    import os
    trace = os.path.basename(rep) == 'geom3d.json'
    entered = []
    out = []; report = {'rewritten': 0, 'overridden': [], 'suspicious': [], 'defined': [], 'extern_double': [], 'functions': {}}
    cur = None; skip = False; pending = None; used_names = set(); ops_here = 0
    defined = set(); decls = {}
    with open(src) as f:
        lines = f.read().split('\n')
    if os.path.basename(rep) == 'iso_10303.json':   # a text parser: only the numbers it hands out are mapped back to symbolic values
        for ln in lines:
            m = re_ldd.match(ln)
            if m: t = '%tok.' + m.group(2)[1:]; out.append(f'{m.group(1)}{t}{m.group(3)}'); out.append(f'{m.group(1)}{m.group(2)} = call double @sym_token(double {t})'); report['rewritten'] += 1
            elif re.match(r'^\s*%[\w.]+ = fneg (?:\w+ )*double ', ln): out.append(re.sub(r'= fneg (?:\w+ )*double ([^,\s]+)', r'= call double @sym_fneg(double \1)', ln)); report['rewritten'] += 1
            else: out.append(ln)
        out.append('declare double @sym_token(double)\ndeclare double @sym_fneg(double)')
        open(dst, 'w').write('\n'.join(out)); json.dump(report, open(rep, 'w')); return
    infn = None; stubdecl = {}; local = {re_def.match(l).group(2) for l in lines if l.startswith('define')}
    for i, ln in enumerate(lines):
        if ln.startswith('define'): infn = re_def.match(ln).group(2)
        elif ln == '}': infn = None
        if '@_R' not in ln or infn in STUBS: continue
        for rx, kind in TEXT:
            if not rx.search(ln) or rx.search(ln).group(0)[1:] in local: continue
            if ln.startswith('declare'): n = stub(rx.search(ln), kind); stubdecl[n[1:]] = rx.sub(n, ln)
            else: lines[i] = ln = rx.sub(lambda m: stub(m, kind), ln); report['rewritten'] += 1
    for ln in lines:
        if ln.startswith('define'):
            m = re_def.match(ln); cur = m.group(2); defined.add(cur); ops_here = 0
            kind = override(cur, ln)
            if kind:
                args = re.findall(r'(ptr|double|i32|i64)[^,()]*?(%[\w.$-]+)', ln[ln.index('@'):])
                out.append(ln); out.append('start:'); report['overridden'].append(cur)
                a = [f'{t} {v}' for t, v in args]
                if kind == 'ulps': out.append(f'  %r = call zeroext i1 @sym_ulps_eq({", ".join(a)})'); out.append('  ret i1 %r')
                elif kind == 'total': out.append(f'  %r = call signext i8 @sym_total_cmp({", ".join(a)})'); out.append('  ret i8 %r')
                else:
                    out.append(f'  %r = call zeroext i1 @sym_is_neg({", ".join(a)})')
                    if kind == 'pos': out.append('  %q = xor i1 %r, true'); out.append('  ret i1 %q')
                    else: out.append('  ret i1 %r')
                out.append('}'); skip = True
                continue
            if trace and re.search(r'6geom3d', cur) and not re.search(r'4core|5alloc|3std', cur.split('6geom3d')[0][-40:]):
                out.append(ln); entered.append(cur); pending = len(entered) - 1
                continue
        if pending is not None:
            out.append(ln)
            if re.match(r'^[\w.]+:', ln):
                out.append(f'  call void @sym_enter(i32 {pending})'); pending = None
            continue
        if skip:
            if ln == '}': skip = False
            continue
        if ln == '}':
            if ops_here: report['functions'][cur] = ops_here
            cur = None; out.append(ln); continue
        if cur is None:
            m = re_decl.match(ln)
            if m: decls[m.group(3)] = ln
            out.append(ln); continue
        if 'double' not in ln: out.append(ln); continue
        new = None
        m = re_bin.match(ln)
        if m: new = f'{m.group(1)}call double @sym_{m.group(2)}(double {m.group(4)}, double {m.group(5)})'
        if not new:
            m = re_cmp.match(ln)
            if m:
                p = m.group(3)
                if p in PREDS: new = f'{m.group(1)}call zeroext i1 @sym_fcmp_{p}(double {m.group(4)}, double {m.group(5)})'
        if not new:
            m = re_neg.match(ln)
            if m: new = f'{m.group(1)}call double @sym_fneg(double {m.group(3)})'
        if not new:
            m = re_bit.match(ln)
            if m: new = f'{m.group(1)}call i64 @sym_to_bits(double {m.group(2)})'
        if not new:
            m = re_trunc.match(ln)
            if m: new = f'{m.group(1)}call float @sym_fptrunc(double {m.group(3)})'
        if not new:
            m = re_ext.match(ln)
            if m: new = f'{m.group(1)}call double @sym_fpext(float {m.group(3)})'
        if not new and 'call' in ln:
            m = re_sat.search(ln)
            if m:
                w = int(m.group(3)); fn = 'sym_' + m.group(2)
                if w == 64: new = ln[:m.start()] + f'call i64 @{fn}(double {m.group(4)})'
                else:
                    pre = ln[:m.start()]; res = pre.strip().split(' ')[0]
                    new = f'  {res}.w = call i64 @{fn}_w(double {m.group(4)}, i32 {w})\n  {res} = trunc i64 {res}.w to i{w}'
            else:
                m = re_call.search(ln)
                if m and m.group(2) in INTRINSICS:
                    fn, n = INTRINSICS[m.group(2)]
                    if 'call' in ln and not ln.lstrip().startswith('invoke'):
                        new = ln.replace(m.group(0), f'@{fn}(', 1)
                        new = re.sub(r'\) #\d+(,.*)?$', ')', new)
                elif m and (m.group(2) == 'llvm.powi.f64.i32'):
                    new = re.sub(r'\) #\d+(,.*)?$', ')', ln.replace(m.group(0), '@sym_powi('))
                elif m and m.group(2).startswith('llvm.') and '.f64' in m.group(2):
                    report['suspicious'].append(ln.strip())
        if new: report['rewritten'] += 1; ops_here += 1; out.append(new)
        else:
            t = ln.strip()
            if re.search(r'\b(fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fptosi|fptoui|fptrunc|fpext)\b', t.split('(')[0]) or re.search(r'<\d+ x double>', t): report['suspicious'].append(t[:200])
            out.append(ln)
    names = {'sym_ulps_eq': 'declare zeroext i1 @sym_ulps_eq(ptr, ptr, double, i32)', 'sym_total_cmp': 'declare signext i8 @sym_total_cmp(ptr, ptr)', 'sym_is_neg': 'declare zeroext i1 @sym_is_neg(double)',
             'sym_to_bits': 'declare i64 @sym_to_bits(double)', 'sym_fptrunc': 'declare float @sym_fptrunc(double)', 'sym_fpext': 'declare double @sym_fpext(float)',
             'sym_fptosi': 'declare i64 @sym_fptosi(double)', 'sym_fptoui': 'declare i64 @sym_fptoui(double)', 'sym_fptosi_w': 'declare i64 @sym_fptosi_w(double, i32)', 'sym_fptoui_w': 'declare i64 @sym_fptoui_w(double, i32)', 'sym_fneg': 'declare double @sym_fneg(double)',
             'sym_powi': 'declare double @sym_powi(double, i32)'}
    for n in SIMPLE_DECLS: names['sym_' + n] = f'declare double @sym_{n}(double, double)'
    for p in PREDS: names['sym_fcmp_' + p] = f'declare zeroext i1 @sym_fcmp_{p}(double, double)'
    for k, (fn, n) in INTRINSICS.items(): names[fn] = f'declare double @{fn}({", ".join(["double"] * n)})'
    names['sym_enter'] = 'declare void @sym_enter(i32)'
    report['entered'] = entered
    for n, d in names.items():
        if n not in decls: out.append(d)
    for n, d in stubdecl.items():
        if n not in defined: out.append(d)
    report['defined'] = sorted(defined)
    for n, d in decls.items():
        if 'double' in d and not n.startswith('llvm.') and not n.startswith('sym_') and n not in INTRINSICS: report['extern_double'].append(n)
    open(dst, 'w').write('\n'.join(out))
    json.dump(report, open(rep, 'w'))

if __name__ == '__main__': main(*sys.argv[1:4])
