#!/usr/bin/env python3
"""Development aid (not a check): drive the shipped bins/lin64/CrashDebug and a CrashDebug built with the stand-in mri
core with the same random GDB sessions and compare every byte on stdout.
   diff_core.py SHIPPED BUILT [sessions] [seed]"""
import os, random, struct, subprocess, sys, tempfile, select, time
def pkt(s):
    b = s if isinstance(s, bytes) else s.encode()
    return b'$' + b + b'#%02x' % (sum(b) & 255)
class Sess:
    def __init__(self, exe, args):
        self.p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''
    def put(self, b): os.write(self.p.stdin.fileno(), b)
    def get(self, t=3.0):
        r, _, _ = select.select([self.p.stdout], [], [], t)
        if not r: raise TimeoutError(self.buf)
        d = os.read(self.p.stdout.fileno(), 65536)
        if not d: raise EOFError
        self.buf += d
    def packet(self):
        while True:
            i = self.buf.find(b'$')
            if i >= 0:
                j = self.buf.find(b'#', i)
                if j >= 0 and len(self.buf) >= j + 3:
                    p, self.buf = self.buf[:j + 3], self.buf[j + 3:]
                    return p
            self.get()
    def close(self):
        self.p.kill(); self.p.wait()
def run(exe, args, cmds):
    s = Sess(exe, args); out = []
    try:
        s.put(b'+')
        for c in cmds:
            s.put(pkt(c))
            while True:
                p = s.packet(); out.append(p); s.put(b'+')
                if not (p.lstrip(b'+')[1:2] == b'O' and p.lstrip(b'+')[1:3] != b'OK'): break
    except (TimeoutError, EOFError, BrokenPipeError) as e: out.append(repr(e).encode())
    s.close()
    return out
def main():
    a, b = sys.argv[1:3]; n = int(sys.argv[3]) if len(sys.argv) > 3 else 100
    rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        img, dmp = d + '/i.bin', d + '/d.bin'
        open(img, 'wb').write(bytes(range(64)))
        for k in range(n):
            fp = rnd.random() < .5
            regs = [rnd.getrandbits(32) for _ in range(19)]
            h = b'cC\x03\0' + struct.pack('<I', int(fp)) + struct.pack('<19I', *regs) + struct.pack('<I', rnd.choice([3,4,5,6,2,12,7,11]))
            if fp: h += struct.pack('<33I', *[rnd.getrandbits(32) for _ in range(33)])
            for (s, l) in [(0x10000000, 32)] + ([(0xE000ED28, 20)] if rnd.random() < .7 else []):
                h += struct.pack('<II', s, s + l) + bytes(rnd.getrandbits(8) for _ in range(l))
            open(dmp, 'wb').write(h)
            cmds = []
            for _ in range(rnd.randint(1, 12)):
                A = rnd.choice([0, 0x10000000, 0x10000018, 0xE000ED28, 0x38, 0xFFFFFFF8]) + rnd.randint(0, 9)
                A &= 0xffffffff
                L = rnd.choice([1, 2, 4, 3, 8, 16, 0])
                hx = bytes(rnd.getrandbits(8) for _ in range(L)).hex()
                cmds.append(rnd.choice([
                    '?', 'g', 'm%x,%x' % (A, L), 'm%x,%x' % (A, L), 'm%x,%x' % (A, L), 'M%x,%x:%s' % (A, L, hx), 'M%x,%x:%s' % (A, L, hx),
                    'M%x,%x:%s' % (A, L, hx[:-2]), 'm%x' % A, 'm,4', 'mg,4', 'M%x,%x' % (A, L), 'M%x,2:0g11' % A,
                    'G' + bytes(rnd.getrandbits(8) for _ in range(19 * 4 + 33 * 4 * fp)).hex(),
                    'G' + bytes(rnd.getrandbits(8) for _ in range(rnd.choice([4, 19 * 4, 20 * 4 + 1]))).hex(),
                    b'X%x,%x:' % (A, L) + bytes(rnd.choice([65, 66, 0, 255]) for _ in range(L)),
                    b'X%x,2:a}\x03' % A,
                    'c', 's', 'c%x' % A, 's%x' % A, 'C05', 'S05', 'C05;%x' % A, 'Z%d,%x,%x' % (rnd.randint(0, 5), A, L), 'z%d,%x,%x' % (rnd.randint(0, 5), A, L), 'Z1', 'Z1,10',
                    'qSupported', 'qSupported:xmlRegisters=i386', 'qXfer:memory-map:read::%x,%x' % (rnd.choice([0, 5, 100, 1000]), rnd.choice([1, 50, 300, 0x4000])),
                    'qXfer:features:read:target.xml:%x,%x' % (rnd.choice([0, 5, 100, 3000]), rnd.choice([1, 50, 300, 0x4000])), 'qXfer:features:read:foo:0,10', 'qXfer:memory-map:read:foo:0,10', 'qXfer:auxv:read::0,1', 'qC', 'vCont?', 'H0', '!',
                    'qXfer:memory-map:write::0,1', 'k', 'D', 'qXfer', '',
                ]))
            args = ['--bin', img, '0', '--dump', dmp]
            ra, rb = run(a, args, cmds), run(b, args, cmds)
            if ra != rb:
                bad += 1
                for c, x, y in zip(cmds, ra, rb):
                    pass
                i = next((i for i in range(min(len(ra), len(rb))) if ra[i] != rb[i]), min(len(ra), len(rb)))
                print('DIFF session', k, cmds); print('   ', ra[i:i+1]); print('   ', rb[i:i+1])
                if bad > 8: break
    print('sessions', n, 'different', bad)
main()
