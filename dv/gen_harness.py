#!/usr/bin/env python3
"""Generates /verif/harness/src/lib.rs and replay.rs: one thin exported entry point per public operation form.
The generated files are committed; regenerating gives the same text."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
FIELDS = ['221_3','222_117','251_9','255_19','382_105','383_187','414_17','511_187','521_1']
NL = {'221_3':4,'222_117':4,'251_9':5,'255_19':5,'382_105':7,'383_187':7,'414_17':8,'511_187':10,'521_1':10}
NB = {'221_3':28,'222_117':28,'251_9':32,'255_19':32,'382_105':48,'383_187':48,'414_17':52,'511_187':64,'521_1':66}
CURVES = [('e222','e_222::E222','222_117'),('c1174','curve1174::Curve1174','251_9'),('e382','e_382::E382','382_105'),
          ('c41417','curve41417::Curve41417','414_17'),('e521','e_521::E521','521_1')]
INTS = ['i32','i16','i8']
# (name, argument spec, body).  Argument spec letters:
#   m = &mut F (read and written)   o = &mut F (pure output)   r = &F   3/1/8 = i32/i16/i8 by value
#   b = bool, u = usize by value, S = &[u8], T = &mut [u8]
# result spec: '' none, 'b' bool, 'i' i32, 'u' usize
def field_ops():
    ops = []
    def a(n, args, body, ret=''): ops.append((n, args, body, ret))
    for nm, op in (('add','+'),('sub','-'),('mul','*'),('div','/')):
        a(nm+'_assign_ref','mr','*a %s= b'%op)
        a(nm+'_assign_val','mr','*a %s= *b'%op)
        a(nm+'_refs','orr','*a = b %s c'%op)
        a(nm+'_vals','orr','*a = *b %s *c'%op)
        if nm == 'div': continue
        for t,l in (('i32','3'),('i16','1'),('i8','8')):
            a('%s_assign_%s'%(nm,t),'m'+l,'*a %s= b'%op)
            a('%s_ref_%s'%(nm,t),'or'+l,'*a = b %s c'%op)
            a('%s_val_%s'%(nm,t),'or'+l,'*a = *b %s c'%op)
            if nm != 'sub':
                a('%s_%s_ref'%(nm,t),'or'+l,'*a = c %s b'%op)
    a('neg','or','*a = -*b')
    for nm in ('small_add','small_sub','small_mul'):
        a(nm+'_assign','m3','a.%s_assign(b)'%nm)
        a(nm,'or3','*a = b.%s(c)'%nm)
    a('square','m','a.square()'); a('squared','or','*a = b.squared()')
    a('invert','m','a.invert()'); a('inverted','or','*a = b.inverted()')
    a('legendre','or','*a = b.legendre()'); a('sqrt','or','*a = b.sqrt()')
    a('normalize','m','a.normalize()')
    a('normalize_self_eq','mr','a.normalize_self_eq(b)','b')
    a('normalize_eq','mm','a.normalize_eq(b)','b')
    a('unpack','oS','a.unpack(b)'); a('unpacked','oS','*a = F::unpacked(b)')
    a('pack','mT','a.pack(b)'); a('pack_normalized','rT','a.pack_normalized(b)')
    a('packed','mP','*b = a.packed()')
    a('nbytes','','F::nbytes()','i'); a('nbits','','F::nbits()','u')
    a('bit','mu','a.bit(b)','b'); a('bit_normalized','ru','a.bit_normalized(b)','b')
    a('normalize_bitand','mm','a.normalize_bitand(b)'); a('normalize_self_bitand','mr','a.normalize_self_bitand(b)'); a('normalized_bitand','mr','a.normalized_bitand(b)')
    a('normalize_bitor','mm','a.normalize_bitor(b)'); a('normalize_self_bitor','mr','a.normalize_self_bitor(b)'); a('normalized_bitor','mr','a.normalized_bitor(b)')
    a('fill','mb','PrimeField::fill(a, b)'); a('filled','ob','*a = <F as PrimeField>::filled(b)')
    a('mask_fill','xb','PrimeFieldMask::fill(a, b)'); a('mask_filled','xb','*a = <M as PrimeFieldMask>::filled(b)')
    a('zero','o','*a = F::zero()'); a('one','o','*a = F::one()'); a('m_one','o','*a = F::m_one()'); a('modulus','o','*a = F::modulus()')
    a('rand','oR','*a = <F as rand::Rand>::rand(b)')
    a('lower_hex','rF','LowerHex::fmt(a, b)','f'); a('upper_hex','rF','UpperHex::fmt(a, b)','f')
    a('debug_fmt','rF','::std::fmt::Debug::fmt(a, b)','f')
    return ops
CONSTS = {'221_3':'ZERO ONE M_ONE MODULUS M_HALF M221_BASE_X M221_BASE_Y M221_ORDER',
 '222_117':'ZERO ONE M_ONE MODULUS E222_D E222_BASE_X E222_BASE_Y E222_ORDER',
 '251_9':'ZERO ONE M_ONE MODULUS CURVE1174_D CURVE1174_BASE_X CURVE1174_BASE_Y CURVE1174_ORDER',
 '255_19':'ZERO ONE M_ONE MODULUS M_HALF CURVE25519_BASE_X CURVE25519_BASE_Y CURVE25519_ORDER',
 '382_105':'ZERO ONE M_ONE MODULUS E382_D E382_BASE_X E382_BASE_Y E382_ORDER',
 '383_187':'ZERO ONE M_ONE MODULUS M_HALF M383_BASE_X M383_BASE_Y M383_ORDER CURVE383187_BASE_X CURVE383187_BASE_Y CURVE383187_ORDER',
 '414_17':'ZERO ONE M_ONE MODULUS CURVE41417_D CURVE41417_BASE_X CURVE41417_BASE_Y CURVE41417_ORDER',
 '511_187':'ZERO ONE M_ONE MODULUS M_HALF M511_BASE_X M511_BASE_Y M511_ORDER',
 '521_1':'ZERO ONE M_ONE MODULUS E521_D E521_BASE_X E521_BASE_Y E521_ORDER'}
TY = {'x':'&mut M','m':'&mut F','o':'&mut F','r':'&F','3':'i32','1':'i16','8':'i8','b':'bool','u':'usize','S':'&[u8]','T':'&mut [u8]','R':'&mut DRng','F':'&mut Formatter'}
RET = {'':'','b':' -> bool','i':' -> i32','u':' -> usize','f':' -> ::std::fmt::Result'}
def sig(f, args, ret):
    ns = 'abcdef'
    return '(' + ', '.join('%s: %s' % (ns[i], TY.get(c) or '&mut [u8; %d]' % NB[f]) for i,c in enumerate(args)) + ')' + RET[ret]
def point_ops():
    # m = &mut P, o = &mut P out, r = &P, s = &mut F, k = &F
    return [('padd_assign_ref','mr','*a += b'),('padd_assign_val','mr','*a += *b'),('padd_refs','orr','*a = b + c'),('padd_vals','orr','*a = *b + *c'),
      ('pzero','o','*a = P::zero()'),('pinit','okk','a.init(*b, *c)'),('pdouble','m','a.double()'),('pdoubled','or','*a = b.doubled()'),
      ('ptriple','m','a.triple()'),('ptripled','or','*a = b.tripled()'),('pscalar_mult','ms','a.scalar_mult(b)'),('pscalar_mult_normalized','mk','a.scalar_mult_normalized(b)'),
      ('pdval','t','*a = <C as EdwardsCurve>::d_val()'),('pcoords','Kr','*a = coords(b)'),('pfrom_coords','ok4','*a = from_coords([b[0], b[1], b[2], b[3]])')]
PTY = {'m':'&mut P','o':'&mut P','r':'&P','s':'&mut F','k':'&F','t':'&mut F','K':'&mut [F; 4]'}
def main():
    L = []
    w = L.append
    w('// Generated by dv/gen_harness.py: thin exported entry points, one per public operation form.')
    w('#![allow(non_camel_case_types, unused_imports, dead_code, improper_ctypes_definitions)]')
    w('extern crate rand;\nextern crate safecurves_rust as sc;')
    w('use sc::field::prime_field::*;\nuse sc::normalize::*;\nuse sc::pack::Pack;\nuse sc::curve::edwards::*;\nuse sc::curve::point::*;')
    w('use std::fmt::{Formatter, LowerHex, UpperHex};')
    w('''
/// A random number generator whose outputs are chosen by the caller: the given words first, then a fixed mixing sequence.
pub struct DRng { pub words: [u64; 16], pub pos: usize }
#[no_mangle]
#[inline(never)]
pub fn verif_next_u64(r: &mut DRng) -> u64 {
    let p = r.pos; r.pos += 1;
    if p < 16 { return r.words[p]; }
    let x = (p as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15); x ^ (x >> 29)   // keeps rejection sampling terminating
}
#[no_mangle]
#[inline(never)]
pub fn verif_next_u32(r: &mut DRng) -> u32 { (verif_next_u64(r) >> 16) as u32 }
impl rand::Rng for DRng {
    fn next_u32(&mut self) -> u32 { verif_next_u32(self) }
    fn next_u64(&mut self) -> u64 { verif_next_u64(self) }
}
#[no_mangle]
pub fn ref_fmt_lower(b: &u8, f: &mut Formatter) -> ::std::fmt::Result { f.write_fmt(format_args!("{:02x}", b)) }
#[no_mangle]
pub fn ref_fmt_upper(b: &u8, f: &mut Formatter) -> ::std::fmt::Result { f.write_fmt(format_args!("{:02X}", b)) }
''')
    for f in FIELDS:
        w('pub mod f_%s {' % f)
        w('    use super::*;\n    use sc::field::mod_e%s as m;\n    pub type F = m::Mod_e%s; pub type M = m::Mod_e%s_Mask;' % (f, f, f))
        for n,args,body,ret in field_ops():
            w('    #[no_mangle] pub fn h_%s_%s%s { %s%s }' % (f, n, sig(f,args,ret), body, '' if ret else ';'))
        for c in CONSTS[f].split():
            w('    #[no_mangle] pub fn h_%s_const_%s(a: &mut F) { *a = m::%s; }' % (f, c, c))
        w('}')
    for c,path,f in CURVES:
        w('pub mod c_%s {' % c)
        w('    use super::*;\n    pub type C = sc::curve::%s;\n    pub type P = EdwardsExtended<C>;\n    pub type F = super::f_%s::F;' % (path, f))
        w('    #[cfg(not(verif_nohooks))] #[inline] pub fn coords(p: &P) -> [F; 4] { p.verif_coords() }')
        w('    #[cfg(not(verif_nohooks))] #[inline] pub fn from_coords(c: [F; 4]) -> P { P::verif_from_coords(c) }')
        w('    #[cfg(verif_nohooks)] #[inline] pub fn coords(p: &P) -> [F; 4] { unsafe { ::std::mem::transmute_copy(p) } }')
        w('    #[cfg(verif_nohooks)] #[inline] pub fn from_coords(c: [F; 4]) -> P { unsafe { ::std::mem::transmute(c) } }')
        for n,args,body in point_ops():
            if args == 'ok4':
                s = '(a: &mut P, b: &[F; 4])'
            else:
                s = '(' + ', '.join('%s: %s' % ('abc'[i], PTY[ch]) for i,ch in enumerate(args)) + ')'
            w('    #[no_mangle] pub fn h_%s_%s%s { %s; }' % (c, n, s, body))
        w('}')
    open(os.path.join(HERE,'../harness/src/lib.rs'),'w').write('\n'.join(L)+'\n')
    # ---------------- replay binary
    L = []; w = L.append
    w('// Generated by dv/gen_harness.py: executes single operations of the real crate on given words, for counterexample replay.')
    w('#![allow(non_camel_case_types, unused_imports, unused_mut, unused_variables)]')
    w('extern crate harness;\nextern crate rand;\nextern crate safecurves_rust as sc;\nuse harness::*;\nuse std::io::{BufRead, Write};\nuse std::fmt::{Formatter, LowerHex, UpperHex};\nuse sc::pack::Pack;\nuse sc::field::prime_field::*;\nuse sc::normalize::*;')
    w('fn hex(b: &[u8]) -> String { let mut s = String::from("#"); for x in b { s.push_str(&format!("{:02x}", x)); } s }')
    w('fn unhex(s: &str) -> Vec<u8> { let s = &s[1..]; (0..s.len()/2).map(|i| u8::from_str_radix(&s[2*i..2*i+2], 16).unwrap()).collect() }')
    w('fn words(s: &str) -> Vec<i64> { if s.is_empty() { return vec![]; } s.split(\',\').map(|x| x.parse::<i64>().unwrap()).collect() }')
    w('fn show(v: &[i64]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }')
    w('/// bytes at an address whose low bits depend on them (so that all alignments occur)')
    w('struct At { v: Vec<u8>, k: usize }')
    w('impl At { fn new(b: Vec<u8>) -> At { let k = b.iter().fold(0u8, |a, x| a.wrapping_mul(3).wrapping_add(*x)) as usize % 16; let mut v = vec![0u8; k]; v.extend_from_slice(&b); At { v, k } } fn s(&mut self) -> &mut [u8] { &mut self.v[self.k..] } }')
    w('struct LH<\'a, T: LowerHex>(&\'a T);')
    for f in FIELDS:
        n = NL[f]
        w('mod r_%s { use super::*; use harness::f_%s::*;' % (f, f))
        w('  pub fn fe(s: &str) -> F { let v = words(s); let mut a = [0i64; %d]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; %d], F>(a) } }' % (n, n))
        w('  pub fn out(x: &F) -> String { let a: [i64; %d] = unsafe { std::mem::transmute_copy::<F, [i64; %d]>(x) }; show(&a) }' % (n, n))
        w('  pub fn me(s: &str) -> M { let v = words(s); let mut a = [0i64; %d]; a.copy_from_slice(&v); unsafe { std::mem::transmute::<[i64; %d], M>(a) } }' % (n, n))
        w('  pub fn mout(x: &M) -> String { let a: [i64; %d] = unsafe { std::mem::transmute_copy::<M, [i64; %d]>(x) }; show(&a) }' % (n, n))
        w('  pub fn run(op: &str, t: &[&str]) -> String { match op {')
        for nm,args,body,ret in field_ops():
            pre, call, post = [], [], []
            for i,ch in enumerate(args):
                v = 'x%d' % i
                if ch in 'mor': pre.append('let mut %s = fe(t[%d]);' % (v,i)); call.append(('&' if ch=='r' else '&mut ')+v); post.append('out(&%s)'%v)
                elif ch == 'x': pre.append('let mut %s: M = me(t[%d]);' % (v,i)); call.append('&mut '+v); post.append('mout(&%s)'%v)
                elif ch in '318u': pre.append('let %s: %s = t[%d].parse().unwrap();' % (v,TY[ch],i)); call.append(v)
                elif ch == 'b': pre.append('let %s = t[%d] == "1";' % (v,i)); call.append(v)
                elif ch in 'ST': pre.append('let mut %s = At::new(unhex(t[%d]));' % (v,i)); call.append(v+'.s()'); post.append('hex(%s.s())'%v)
                elif ch == 'P': pre.append('let mut %s = [0u8; %d];' % (v,NB[f])); call.append('&mut '+v); post.append('hex(&%s)'%v)
                elif ch == 'R': pre.append('let q = words(t[%d]); let mut %s = DRng { words: [0; 16], pos: 0 }; for i in 0..16 { %s.words[i] = q[i %% q.len()] as u64; }' % (i,v,v)); call.append('&mut '+v)
            if nm == 'debug_fmt':
                w('    "%s" => { let x0 = fe(t[0]); let s = format!("{:?}", x0); let q = format!("{:#?}", x0); format!("{} {}", out(&x0), s.len() + q.len()) }' % nm)
                continue
            if 'F' in args:
                w('    "%s" => { let x0 = fe(t[0]); let mut s = format!("{:@}", x0); for q in [format!("{:#@}", x0), format!("{:+@}", x0), format!("{:.3@}", x0), format!("{:300@}", x0), format!("{:0300@}", x0), format!("{:*^7.5@}", x0)].iter() { if q.replace(" ", "_") != s { s = q.replace(" ", "_"); break; } } format!("{} {}", out(&x0), s) }'.replace('@', 'x' if nm=='lower_hex' else 'X') % nm)
                continue
            expr = 'h_%s_%s(%s)' % (f,nm,', '.join(call))
            pr = 'let r = %s; ' % expr if ret else expr+'; '
            if ret: post.append('(r as i64).to_string()')
            rs = [i for i,ch in enumerate(args) if ch == 'r']
            if len(rs) == 2:        # the same element twice
                w('    "%s@same" => { %s %s[%s].join(" ") }' % (nm, ' '.join(pre), pr.replace('&x%d' % rs[1], '&x%d' % rs[0]), ', '.join(post)))
            w('    "%s" => { %s %s[%s].join(" ") }' % (nm, ' '.join(pre), pr, ', '.join(post)))
        for c in CONSTS[f].split():
            w('    "const_%s" => { let mut a = sc::field::mod_e%s::ZERO; h_%s_const_%s(&mut a); out(&a) }' % (c,f,f,c))
        w('    _ => String::from("unknown") } }\n}')
    for c,path,f in CURVES:
        w('mod q_%s { use super::*; use harness::c_%s::*; use super::r_%s::{fe, out};' % (c,c,f))
        w('  fn pt(s: &str) -> P { let q: Vec<F> = s.split(\':\').map(|x| fe(x)).collect(); from_coords([q[0], q[1], q[2], q[3]]) }')
        w('  fn pout(p: &P) -> String { let q = coords(p); q.iter().map(|x| out(x)).collect::<Vec<_>>().join(":") }')
        w('  pub fn run(op: &str, t: &[&str]) -> String { match op {')
        for nm,args,body in point_ops():
            if args in ('Kr','ok4'): continue
            pre, call, post = [], [], []
            for i,ch in enumerate(args):
                v = 'x%d' % i
                if ch in 'mor': pre.append('let mut %s = pt(t[%d]);' % (v,i)); post.append('pout(&%s)'%v)
                else: pre.append('let mut %s = fe(t[%d]);' % (v,i)); post.append('out(&%s)'%v)
                call.append(('&' if ch in 'rk' else '&mut ')+v)
            w('    "%s" => { %s h_%s_%s(%s); [%s].join(" ") }' % (nm, ' '.join(pre), c, nm, ', '.join(call), ', '.join(post)))
            rs = [i for i,ch in enumerate(args) if ch == 'r']
            if len(rs) == 2: w('    "%s@same" => { %s h_%s_%s(%s); [%s].join(" ") }' % (nm, ' '.join(pre), c, nm, ', '.join(call).replace('&x%d' % rs[1], '&x%d' % rs[0]), ', '.join(post)))
        w('    _ => String::from("unknown") } }\n}')
    w('fn dispatch(t: &[&str]) -> String { match t[0] {')
    for f in FIELDS: w('    "%s" => r_%s::run(t[1], &t[2..]),' % (f,f))
    for c,_,_ in CURVES: w('    "%s" => q_%s::run(t[1], &t[2..]),' % (c,c))
    w('    _ => String::from("unknown") } }')
    w('''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let so = std::io::stdout();
    let mut so = std::io::BufWriter::new(so.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split(' ').collect();
        let r = std::panic::catch_unwind(|| {
            if t[0] == "conc" {      // the first call repeated while other threads make the second: an output that differs from the one before, if any
                let mid = t.iter().position(|x| *x == "|").unwrap(); let (a, b) = (&t[1..mid], &t[mid+1..]);
                let o = dispatch(a); let start = std::time::Instant::now();
                let stop = std::sync::atomic::AtomicBool::new(false);
                let relaxed = std::sync::atomic::Ordering::Relaxed;
                let bad: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
                std::thread::scope(|s| {
                    for k in 0..4 { let (o, stop, bad, start) = (&o, &stop, &bad, &start); s.spawn(move || while !stop.load(relaxed) && start.elapsed().as_millis() < 1500 {
                        if k % 2 == 1 { let _ = std::panic::catch_unwind(|| dispatch(b)); continue; }
                        let q = std::panic::catch_unwind(|| dispatch(a)).unwrap_or_else(|_| String::from("PANIC under concurrent calls"));
                        if q != *o { *bad.lock().unwrap() = Some(q); stop.store(true, relaxed); }
                    }); }
                });
                let q = bad.lock().unwrap().take();
                return q.unwrap_or(o);
            }
            if t[0] != "again" { return dispatch(&t); }
            // the same call repeated: the first output that differs from the one before, if any
            let n: u64 = t[1].parse().unwrap(); let start = std::time::Instant::now();
            let mut o = dispatch(&t[2..]);
            for i in 1..n {
                let q = dispatch(&t[2..]);
                if q != o { return q; }
                if i % 64 == 0 && start.elapsed().as_millis() >= 2500 { break; }
            }
            o
        });
        match r {
            Ok(s) => { let _ = writeln!(so, "{}", s); let _ = so.flush(); }
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { String::from("?") };
                let _ = writeln!(so, "PANIC {}", m.replace("\\n", " ")); let _ = so.flush();
            }
        }
    }
}''')
    open(os.path.join(HERE,'../harness/src/replay.rs'),'w').write('\n'.join(L)+'\n')
if __name__ == '__main__': main()
