import json,os,re,subprocess
T=open('/verif/tools/design/DESIGN.tmpl').read()
rows=[
("C01","every history of up to 3 operations (T: 5) of about 100 kinds on a pool of vectors, matrices, iterators, loose elements, from all small initial objects; elements word-sized, zero-sized, boxed; each step on every live object; 68 operations on 25 element kinds; about 900 programs that the compiler must refuse (borrows that end too early, `Send`/`Sync`, foreign lengths); Miri on a smaller depth","ownership registry (every id live once, dropped once, pool owns exactly the live ones), contents, Miri, the compiler's verdict","265 s"),
("C02","every operation that runs caller code, on every length 0..=32 and 20+ shapes: a panic at call k for every k, at destructor k for every k (T: also every pair with the next operation); the same for 68 operations on 10 kinds of elements with a destructor","registry after unwinding: none dead twice, none lost, survivors valid and usable; Miri","77 s"),
("C03","all histories of up to 4 calls (T: 6) plus a finishing call, lengths 0..=4, five element kinds; every (front, back) state of lengths 0..=32 with every next call and distance (T: two calls)","`VecDeque` + registry; Miri","54 s"),
("C04","the same for rows, columns (value/reference) and column entries, all shapes up to 4x4, 3 calls (T: 5); every state of 16 larger shapes; iterator constructors with every column index","`VecDeque` of rows/columns, element addresses","165 s"),
("C05","the same for every (length, divisor), lengths 0..=8, 3 calls (T: 5); every state of larger ones; every reshape up to 32 entries","`VecDeque` of chunks + registry; Miri","38 s"),
("C06","every constructor on every length and shapes up to 9x9 and to 32x32; sources of 0..=N+2, 2N+1, N+33, 10000 elements, fused or not, with six kinds of size hint; generators that record their calls","index function; call log","36 s"),
("C07","two writes through every access path at every position, all read paths after each; run-time indices of a boundary set (around n, n^2, 2^32, 2^63, MAX); compile-time acceptance of every (index, length), by trait probing; Miri","`Vec<Vec<_>>`; acceptance = index < length","26 s"),
("C08","every operator in every operand form on every length 0..=32 and 36 shapes, over a free term algebra (distinct symbols); all pairs over 10 f64 values (bit for bit) and 8 i64 values on 2-vectors and 2x1; operands that are the same object; 25 element kinds on 11 lengths and 14 shapes","the term of the definition","45 s"),
("C09","171 shape triples of products, all matrix-vector shapes, dot/cross/sum of every length over the free non-commutative ring, every zero pattern up to 8 entries; all pairs of small matrices over GF(2), GF(3), Z/4, Z/6; an operand multiplied by itself; 25 element kinds","sum of words in written order","35 s"),
("C10","all 2x2 over GF(2), GF(3), Z/4, GF(5), 3x3 over GF(2), 260 exponents up to `usize::MAX`; free ring with all zero patterns; every size 0..=32","eventually periodic sequence of repeated products","23 s"),
("C11","all matrices of finite spaces up to 4x4 over GF(3) and 5x5 over GF(2); all zero patterns over a free commutative ring up to 3x3; rationals; every pattern of zero leading minors x diagonal zero x density up to 5x5, selected to 32x32; monomial matrices","permutation sum (division-free), or the determinant known by construction","69 s"),
("C12","the same spaces, every position; out-of-range positions of a boundary set for sizes 2..=32","signed minor by the permutation sum; panic","35 s"),
("C13","the same spaces; every permutation up to 5x5, families for every size 1..=32","`Some` iff independently computed determinant is non-zero; both products with it are the identity","39 s"),
("C14","shapes 0x0..9x9 and selected ones to 32x32 (T: all 1089) with identified entries; every truth table up to 9 entries","position maps, call logs","43 s"),
("C15","every assignment of n ranks to n entries up to 6 (T: 7), every pair of positions for two extremes above; natural order and four comparisons; every placement of clamp bounds","direct definition over the enumerated order types","49 s"),
("C16","every agreement pattern up to 9 entries, up to two disagreements (or one agreement) above, up to 32x32; entries that record the tolerances they are given; a value compared with itself (same object) and with NaN; u8/i32/f64; 25 element kinds; `Eq` probed for every shape","conjunction over entries","25 s"),
("C17","all combinations of 21 texts (empty, wide, multi-line, combining, failing ...) up to 3 (4) entries, every position above; the sink failing at every write","independent parser of the printed list/grid","60 s"),
("C18","size, alignment, addresses, array round trips, `Copy` for every length, shapes to 32x32 and eight element types; all 26 aliases and 33 numbers by type identity; allocations of about 150 operations","`size_of`, `TypeId`, counting allocator","51 s"),
("C19","symbolic real entries (all reals at once) for every length 0..=32; all vectors over a grid up to length 4 (T: 6); all sign patterns; every power of two as a scale from 2^-480 to 2^480; norms within 2^-39 of round numbers; infinities, NaN and -0; two special entries at every pair of positions of every length","exact sum of squares; relative tolerance","11 s"),
("C20","the same enumeration of operations, inputs, rejected calls and iterator histories in 7 (T: 12) build configurations: profiles x features; chunk and matrix iterators in every state of larger shapes","the transcripts are equal entry by entry","141 s"),
("C21","every pair of about 70 operations on two threads (own operands; the same shared ones): first slices of every length up to 4 calls of caller code and selected ones above, 2 slices (T: 3 slices, up to 8), then to the end; the second operation nested in each call the first makes, and in all; every sequence of 2 (T: 3) operations on two sets of operands whose results differ; each operation 5000 times in a row; Miri (its data-race detector included) with one switch","each result equals that of the operation run alone; borrowed operands unchanged","190 s"),
("C22","one program for every combination, about 20 000: all 33 x 33 pairs of lengths for sum, dot product, equality, construction and chunking; every operand form at about 50 pairs; all quadruples of dimensions up to 3, and pairs of large shapes, for every operation on two matrices; matrix times vector, diagonals, rows, columns, reshaping; square-only operations for all shapes to 8 x 8 and squares to 32; macros, also by path, under shadowed names and without the standard library; capabilities of eleven element types","the compiler accepts or refuses as the shape rules in tools/gen_shapes.py say; error codes of type checking, line by line","77 s"),
]
t='\n'.join('| %s | %s | %s | %s |'%r for r in rows)
T=T.replace('C01_TABLE',t)
fx=[]
for l in open('/verif/known-findings.txt'):
    m=re.match(r'fixed: property=(C\d+) (\w+) (.*)',l)
    if m: fx.append('| %s | %s | %s |'%(m[2],m[1],m[3]))
T=T.replace('FIX_TABLE','\n'.join(fx))
extra={}
sr=['| seed | property | caught by | needs |','|--|--|--|--|']
for s in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%s))
    sr.append('| %s | %s | %s | %s |'%(s,m['property'],extra.get(s,m['property']),m['needs'].replace('|','/').replace('\n',' ')))
T=T.replace('SEED_TABLE','\n'.join(sr))
for k in ('REFAC_SECTION','MUT_SECTION'):
    p='/verif/tools/design/%s.md'%k
    T=T.replace(k,open(p).read().strip() if os.path.exists(p) else '(in progress)')
open('/verif/DESIGN.md','w').write(T)
