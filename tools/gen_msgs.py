#!/usr/bin/env python3
"""Generate C++ message structs from .msg files (no ROS on this machine).

usage: gen_msgs.py OUT_DIR SRC_DIR...   each SRC_DIR holds <pkg>/msg/*.msg or is itself a package dir
"""
import os, re, sys, glob

PRIM = {'bool': 'bool', 'byte': 'uint8_t', 'char': 'uint8_t', 'int8': 'int8_t', 'uint8': 'uint8_t',
        'int16': 'int16_t', 'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t',
        'int64': 'int64_t', 'uint64': 'uint64_t', 'float32': 'float', 'float64': 'double',
        'string': 'std::string', 'wstring': 'std::u16string'}


def snake(name):
    s = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', name)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', s).lower()


def gen(pkg, kind, name, text, out):
    incs, consts, fields, numbers = [], [], [], []
    for line in text.splitlines():
        line = line.split('#', 1)[0].strip() if '"' not in line else line.strip()
        if not line:
            continue
        m = re.match(r'^(\S+)\s+([A-Za-z]\w*)\s*=\s*(.+)$', line)
        if m:
            t, n, v = m.groups()
            ct = PRIM[t.split('<')[0]]
            if ct == 'std::string':
                consts.append(f'  inline static const std::string {n} = "{v.strip().strip(chr(34)).strip(chr(39))}";')
            else:
                consts.append(f'  static constexpr {ct} {n} = {v.strip()};')
                numbers.append(n)
            continue
        m = re.match(r'^(\S+)\s+([A-Za-z]\w*)\s*(.*)$', line)
        t, n, default = m.groups()
        arr = re.match(r'^(.*?)\[(<=)?(\d*)\]$', t)
        base = arr.group(1) if arr else t
        base = base.split('<=')[0]
        if base in PRIM:
            ct = PRIM[base]
        else:
            if '/' in base:
                parts = base.split('/')
                p, b = parts[0], parts[-1]
            else:
                p, b = (pkg, base) if base != 'Header' else ('std_msgs', 'Header')
            incs.append(f'{p}/msg/{snake(b)}.hpp')
            ct = f'::{p}::msg::{b}'
        if arr:
            if arr.group(3) and not arr.group(2):
                ft = f'std::array<{ct}, {arr.group(3)}>'
            else:
                ft = f'std::vector<{ct}>'
            init = '{}'
        else:
            ft = ct
            default = default.strip()
            if default:
                if ct == 'std::string':
                    default = '"' + default.strip('"').strip("'") + '"'
                init = f' = {default}'
            elif base in PRIM and ct != 'std::string':
                init = ' = 0' if ct != 'bool' else ' = false'
            else:
                init = '{}'
        fields.append((ft, n, init))
    ns = kind
    g = f'{pkg}__{kind}__{name}_'.upper()
    L = [f'#ifndef STUB_{g}', f'#define STUB_{g}', '#include <array>', '#include <cstdint>', '#include <memory>',
         '#include <string>', '#include <utility>', '#include <vector>']
    L += [f'#include <{i}>' for i in dict.fromkeys(incs)]
    L += [f'namespace {pkg}::{ns}', '{', 'template <typename A = void>', f'struct {name}_', '{']
    L += consts
    for ft, n, init in fields:
        L.append(f'  using _{n}_type = {ft};')
        L.append(f'  {ft} {n}{init};')
    L.append(f'  using SharedPtr = std::shared_ptr<{name}_>;')
    L.append(f'  using ConstSharedPtr = std::shared_ptr<const {name}_>;')
    L.append(f'  using UniquePtr = std::unique_ptr<{name}_>;')
    visit = ' '.join(f'f("{n}", {n});' for _, n, _ in fields)
    L.append(f'  template <class F> void stub_fields(F && f) {{ {visit} }}')
    L.append(f'  template <class F> void stub_fields(F && f) const {{ {visit} }}')
    pairs = ', '.join(f'{{"{n}", static_cast<long long>({n})}}' for n in numbers)
    L.append(f'  static auto stub_constants() {{ return std::vector<std::pair<std::string, long long>>{{{pairs}}}; }}')
    cmp = ' && '.join(f'{n} == o.{n}' for _, n, _ in fields) or 'true'
    ov = 'o' if fields else ''
    L.append(f'  bool operator==(const {name}_ & {ov}) const {{ return {cmp}; }}')
    L.append(f'  bool operator!=(const {name}_ & o) const {{ return not (*this == o); }}')
    for ft, n, _ in fields:
        L.append(f'  auto set__{n}(const {ft} & v) -> {name}_ & {{ {n} = v; return *this; }}')
    L += ['};', f'using {name} = {name}_<void>;']
    if fields:
        L.append('namespace builder {')
        for k in range(len(fields) - 1, -1, -1):
            ft, n, _ = fields[k]
            cls = f'Init_{name}_{n}'
            ret = f'{name}' if k == len(fields) - 1 else f'Init_{name}_{fields[k + 1][1]}'
            expr = 'std::move(msg_)' if k == len(fields) - 1 else f'{ret}{{std::move(msg_)}}'
            L.append(f'struct {cls} {{ {name} msg_; {ret} {n}({ft} a) {{ msg_.{n} = std::move(a); return {expr}; }} }};')
        L.append('}')
    L.append('}')
    if fields:
        L.append(f'namespace {pkg} {{ template <class T> auto build(); template <> inline auto build<::{pkg}::{ns}::{name}>() {{ return ::{pkg}::{ns}::builder::Init_{name}_{fields[0][1]}{{}}; }} }}')
    L += ['#endif', '']
    p = os.path.join(out, pkg, kind, snake(name) + '.hpp')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    data = '\n'.join(L)
    if not os.path.exists(p) or open(p).read() != data:
        open(p, 'w').write(data)


def main():
    out = sys.argv[1]
    for src in sys.argv[2:]:
        for f in sorted(glob.glob(os.path.join(src, 'msg', '*.msg')) + glob.glob(os.path.join(src, '*', 'msg', '*.msg'))):
            pkg = os.path.basename(os.path.dirname(os.path.dirname(f)))
            gen(pkg, 'msg', os.path.basename(f)[:-4], open(f).read(), out)
        for f in sorted(glob.glob(os.path.join(src, 'srv', '*.srv')) + glob.glob(os.path.join(src, '*', 'srv', '*.srv'))):
            pkg = os.path.basename(os.path.dirname(os.path.dirname(f)))
            name = os.path.basename(f)[:-4]
            req, _, res = open(f).read().partition('---')
            gen(pkg, 'srv', name + '_Request', req, out)
            gen(pkg, 'srv', name + '_Response', res, out)
            p = os.path.join(out, pkg, 'srv', snake(name) + '.hpp')
            rq, rs = snake(name + '_Request'), snake(name + '_Response')
            open(p, 'w').write(
                f'#pragma once\n#include <{pkg}/srv/{rq}.hpp>\n#include <{pkg}/srv/{rs}.hpp>\n'
                f'namespace {pkg}::srv {{ struct {name} {{ using Request = {name}_Request; using Response = {name}_Response; }}; }}\n')


main()
