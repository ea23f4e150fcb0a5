# -*- coding: utf-8 -*-
"""
The I/O seam: control of the LD_PRELOAD library that owns every file operation
below a simulated root (see shim.c).
"""
import errno
import os

import cffi

OPS = {1: 'openr', 2: 'openw', 3: 'read', 4: 'write', 5: 'close', 6: 'rename', 7: 'unlink', 8: 'mkdir', 9: 'trunc', 10: 'sync', 11: 'stat'}
OPN = {v: k for k, v in OPS.items()}
ACTIONS = {'err': 1, 'persist': 2, 'crash-before': 3, 'crash-after': 4, 'crash-part': 5, 'short': 6, 'eintr': 7, 'part-err': 8, 'trunc-read': 9}
ACTN = {v: k for k, v in ACTIONS.items()}
CRASH_CODE = 77
ALL = 0xffff
WRITES = sum(1 << OPN[o] for o in ('openw', 'write', 'rename', 'mkdir', 'unlink', 'trunc', 'sync'))
READS = sum(1 << OPN[o] for o in ('openr', 'read'))

ffi = cffi.FFI()
ffi.cdef("""
void dst_reset(const char *r);
void dst_active(int on);
int dst_plan(int k, int action, int err, long arg, int mask);
void dst_random(uint64_t seed, int shorts, int eintrs);
int dst_nlog(void);
int dst_fired(int i);
int dst_rec(int i, int *op, long *size, long *ret, int *err, int *fault, char *name);
void dst_gate(int out, int in);
void dst_clock(int64_t start_ns, int64_t step_ns);
int64_t dst_clock_now(void);
""")
lib = ffi.dlopen(None)


class Disk(object):
    """ One simulated disk: everything below ``root``, in this process. """
    def __init__(self, root, plan=(), rnd=None, clock=None, gate=None):
        self.root = os.path.realpath(root)
        self.plan = [list(p) for p in plan]
        self.rnd = rnd
        self.clock = clock
        self.gate = gate

    def __enter__(self):
        lib.dst_reset(self.root.encode())
        for k, action, err, arg, mask in self.plan:
            e = getattr(errno, err) if err else 0
            m = ALL if mask is None else mask
            lib.dst_plan(k, ACTIONS[action], e, arg, m)
        if self.rnd:
            lib.dst_random(*self.rnd)
        if self.clock:
            lib.dst_clock(*self.clock)
        if self.gate:
            lib.dst_gate(*self.gate)
        lib.dst_active(1)
        return self

    def __exit__(self, *a):
        lib.dst_active(0)
        lib.dst_gate(-1, -1)
        if self.clock:
            lib.dst_clock(-1, 0)

    def fired(self):
        return [lib.dst_fired(i) for i in range(len(self.plan))]

    def log(self):
        out = []
        op, size, ret, err, fault = (ffi.new('int *'), ffi.new('long *'), ffi.new('long *'), ffi.new('int *'), ffi.new('int *'))
        name = ffi.new('char[64]')
        for i in range(lib.dst_nlog()):
            if lib.dst_rec(i, op, size, ret, err, fault, name):
                break
            out.append([OPS.get(op[0], op[0]), ffi.string(name).decode('utf8', 'replace'), size[0], ret[0], err[0], ACTN.get(fault[0], '')])
        return out
