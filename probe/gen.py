"""writes src/lib.rs: programs that use the construction macros"""
V, S = 'rowcol::prelude', []
L = 32
for n in range(L + 1):
    if n == 0:
        S.append('pub fn v0<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U0> { let _ = &mut f; vector![] }')
    else:
        S.append('pub fn v%d<T, F: FnMut(usize) -> T>(mut f: F) -> Vector<T, U%d> { vector![%s] }' % (n, n, ', '.join('f(%d)' % i for i in range(n))))
shapes = [(r, c) for r in range(1, 5) for c in range(1, 5)] + [(1, k) for k in range(5, 33)] + [(k, 1) for k in range(5, 33)] + \
    [(2, 32), (32, 2), (7, 5), (5, 7), (6, 6), (9, 8)]
for r, c in shapes:
    S.append('pub fn m%d_%d<T, F: FnMut(usize) -> T>(mut f: F) -> Matrix<T, U%d, U%d> { matrix![%s] }' % (
        r, c, r, c, ', '.join('[%s]' % ', '.join('f(%d)' % (i * c + j) for j in range(c)) for i in range(r))))
open(__file__.replace('gen.py', 'src/lib.rs'), 'w').write(
    '#![no_std]\n// generated by gen.py\n#[macro_use] extern crate rowcol;\nuse rowcol::prelude::*;\n\n' + '\n'.join(S) + '\n')
