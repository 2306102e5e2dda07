//! Written by tools/gen_borrow.py.
#![allow(unused, unused_mut, clippy::all)]
use rowcol::matrix::iter::*;
use rowcol::prelude::*;
use rowcol::vector::{Chunks, IntoIter};
use std::cell::Cell;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

fn touch<T>(_: &T) {}
fn vec3() -> Vector<String, U3> { Vector::generate(|i| i.to_string()) }
fn mat23() -> Matrix<String, U2, U3> { Matrix::generate(|(i, j)| format!("{}{}", i, j)) }
fn vec23() -> Vector<Vector<String, U3>, U2> { Vector::generate(|_| vec3()) }

fn f0() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.as_slice(), then drop(v);
fn f1() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.as_slice(), then v = vec3();
fn f2() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.as_slice(), then let moved = v; touch(&moved);
fn f3() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.as_slice(), then v.as_slice_mut()[0].clear();
fn f4() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.as_slice(), then touch(&v.iter_mut().next());
fn f5() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.as_slice(), then v[0].clear();
fn f6() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.as_slice(), then touch(&v.into_iter().next());
fn f7() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.as_slice(), then touch(&v.into_inner());
fn f8() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.as_slice(), then v.clamp(String::new(), String::new());
fn f9() { let mut v = vec3(); let r = v.as_slice(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.as_slice(), then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f10() { let r = { let mut v = vec3(); v.as_slice() }; touch(&r); } // ! v.as_slice() outliving its container
fn f11() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! &v[1], then drop(v);
fn f12() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! &v[1], then v = vec3();
fn f13() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! &v[1], then let moved = v; touch(&moved);
fn f14() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! &v[1], then v.as_slice_mut()[0].clear();
fn f15() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! &v[1], then touch(&v.iter_mut().next());
fn f16() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! &v[1], then v[0].clear();
fn f17() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! &v[1], then touch(&v.into_iter().next());
fn f18() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! &v[1], then touch(&v.into_inner());
fn f19() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! &v[1], then v.clamp(String::new(), String::new());
fn f20() { let mut v = vec3(); let r = &v[1]; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! &v[1], then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f21() { let r = { let mut v = vec3(); &v[1] }; touch(&r); } // ! &v[1] outliving its container
fn f22() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! &v[U1::new()], then drop(v);
fn f23() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! &v[U1::new()], then v = vec3();
fn f24() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! &v[U1::new()], then let moved = v; touch(&moved);
fn f25() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! &v[U1::new()], then v.as_slice_mut()[0].clear();
fn f26() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! &v[U1::new()], then touch(&v.iter_mut().next());
fn f27() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! &v[U1::new()], then v[0].clear();
fn f28() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! &v[U1::new()], then touch(&v.into_iter().next());
fn f29() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! &v[U1::new()], then touch(&v.into_inner());
fn f30() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! &v[U1::new()], then v.clamp(String::new(), String::new());
fn f31() { let mut v = vec3(); let r = &v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! &v[U1::new()], then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f32() { let r = { let mut v = vec3(); &v[U1::new()] }; touch(&r); } // ! &v[U1::new()] outliving its container
fn f33() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! &v[U0::new()], then drop(v);
fn f34() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! &v[U0::new()], then v = vec3();
fn f35() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! &v[U0::new()], then let moved = v; touch(&moved);
fn f36() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! &v[U0::new()], then v.as_slice_mut()[0].clear();
fn f37() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! &v[U0::new()], then touch(&v.iter_mut().next());
fn f38() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! &v[U0::new()], then v[0].clear();
fn f39() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! &v[U0::new()], then touch(&v.into_iter().next());
fn f40() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! &v[U0::new()], then touch(&v.into_inner());
fn f41() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! &v[U0::new()], then v.clamp(String::new(), String::new());
fn f42() { let mut v = vec3(); let r = &v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! &v[U0::new()], then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f43() { let r = { let mut v = vec3(); &v[U0::new()] }; touch(&r); } // ! &v[U0::new()] outliving its container
fn f44() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.iter(), then drop(v);
fn f45() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.iter(), then v = vec3();
fn f46() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.iter(), then let moved = v; touch(&moved);
fn f47() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.iter(), then v.as_slice_mut()[0].clear();
fn f48() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.iter(), then touch(&v.iter_mut().next());
fn f49() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.iter(), then v[0].clear();
fn f50() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.iter(), then touch(&v.into_iter().next());
fn f51() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.iter(), then touch(&v.into_inner());
fn f52() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.iter(), then v.clamp(String::new(), String::new());
fn f53() { let mut v = vec3(); let r = v.iter(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.iter(), then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f54() { let r = { let mut v = vec3(); v.iter() }; touch(&r); } // ! v.iter() outliving its container
fn f55() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.iter().next(), then drop(v);
fn f56() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.iter().next(), then v = vec3();
fn f57() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.iter().next(), then let moved = v; touch(&moved);
fn f58() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.iter().next(), then v.as_slice_mut()[0].clear();
fn f59() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.iter().next(), then touch(&v.iter_mut().next());
fn f60() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.iter().next(), then v[0].clear();
fn f61() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.iter().next(), then touch(&v.into_iter().next());
fn f62() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.iter().next(), then touch(&v.into_inner());
fn f63() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.iter().next(), then v.clamp(String::new(), String::new());
fn f64() { let mut v = vec3(); let r = v.iter().next(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.iter().next(), then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f65() { let r = { let mut v = vec3(); v.iter().next() }; touch(&r); } // ! v.iter().next() outliving its container
fn f66() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.iter().next_back(), then drop(v);
fn f67() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.iter().next_back(), then v = vec3();
fn f68() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.iter().next_back(), then let moved = v; touch(&moved);
fn f69() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.iter().next_back(), then v.as_slice_mut()[0].clear();
fn f70() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.iter().next_back(), then touch(&v.iter_mut().next());
fn f71() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.iter().next_back(), then v[0].clear();
fn f72() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.iter().next_back(), then touch(&v.into_iter().next());
fn f73() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.iter().next_back(), then touch(&v.into_inner());
fn f74() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.iter().next_back(), then v.clamp(String::new(), String::new());
fn f75() { let mut v = vec3(); let r = v.iter().next_back(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.iter().next_back(), then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f76() { let r = { let mut v = vec3(); v.iter().next_back() }; touch(&r); } // ! v.iter().next_back() outliving its container
fn f77() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! &*v, then drop(v);
fn f78() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! &*v, then v = vec3();
fn f79() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! &*v, then let moved = v; touch(&moved);
fn f80() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! &*v, then v.as_slice_mut()[0].clear();
fn f81() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! &*v, then touch(&v.iter_mut().next());
fn f82() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! &*v, then v[0].clear();
fn f83() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! &*v, then touch(&v.into_iter().next());
fn f84() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! &*v, then touch(&v.into_inner());
fn f85() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! &*v, then v.clamp(String::new(), String::new());
fn f86() { let mut v = vec3(); let r = &*v; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! &*v, then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f87() { let r = { let mut v = vec3(); &*v }; touch(&r); } // ! &*v outliving its container
fn f88() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then drop(v);
fn f89() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then v = vec3();
fn f90() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then let moved = v; touch(&moved);
fn f91() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then v.as_slice_mut()[0].clear();
fn f92() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then touch(&v.iter_mut().next());
fn f93() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then v[0].clear();
fn f94() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then touch(&v.into_iter().next());
fn f95() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then touch(&v.into_inner());
fn f96() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then v.clamp(String::new(), String::new());
fn f97() { let mut v = vec3(); let r = AsRef::<[String]>::as_ref(&v); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! AsRef::<[String]>::as_ref(&v), then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f98() { let r = { let mut v = vec3(); AsRef::<[String]>::as_ref(&v) }; touch(&r); } // ! AsRef::<[String]>::as_ref(&v) outliving its container
fn f99() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then drop(v);
fn f100() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then v = vec3();
fn f101() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then let moved = v; touch(&moved);
fn f102() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then v.as_slice_mut()[0].clear();
fn f103() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then touch(&v.iter_mut().next());
fn f104() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then v[0].clear();
fn f105() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then touch(&v.into_iter().next());
fn f106() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then touch(&v.into_inner());
fn f107() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then v.clamp(String::new(), String::new());
fn f108() { let mut v = vec3(); let r = unsafe { v.get_unchecked(1) }; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! unsafe { v.get_unchecked(1) }, then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f109() { let r = { let mut v = vec3(); unsafe { v.get_unchecked(1) } }; touch(&r); } // ! unsafe { v.get_unchecked(1) } outliving its container
fn f110() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! Deref::deref(&v), then drop(v);
fn f111() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! Deref::deref(&v), then v = vec3();
fn f112() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! Deref::deref(&v), then let moved = v; touch(&moved);
fn f113() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! Deref::deref(&v), then v.as_slice_mut()[0].clear();
fn f114() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! Deref::deref(&v), then touch(&v.iter_mut().next());
fn f115() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! Deref::deref(&v), then v[0].clear();
fn f116() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! Deref::deref(&v), then touch(&v.into_iter().next());
fn f117() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! Deref::deref(&v), then touch(&v.into_inner());
fn f118() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! Deref::deref(&v), then v.clamp(String::new(), String::new());
fn f119() { let mut v = vec3(); let r = Deref::deref(&v); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! Deref::deref(&v), then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f120() { let r = { let mut v = vec3(); Deref::deref(&v) }; touch(&r); } // ! Deref::deref(&v) outliving its container
fn f121() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.iter().max(), then drop(v);
fn f122() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.iter().max(), then v = vec3();
fn f123() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.iter().max(), then let moved = v; touch(&moved);
fn f124() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.iter().max(), then v.as_slice_mut()[0].clear();
fn f125() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.iter().max(), then touch(&v.iter_mut().next());
fn f126() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.iter().max(), then v[0].clear();
fn f127() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.iter().max(), then touch(&v.into_iter().next());
fn f128() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.iter().max(), then touch(&v.into_inner());
fn f129() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.iter().max(), then v.clamp(String::new(), String::new());
fn f130() { let mut v = vec3(); let r = v.iter().max(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.iter().max(), then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f131() { let r = { let mut v = vec3(); v.iter().max() }; touch(&r); } // ! v.iter().max() outliving its container
fn f132() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.as_slice().last(), then drop(v);
fn f133() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.as_slice().last(), then v = vec3();
fn f134() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.as_slice().last(), then let moved = v; touch(&moved);
fn f135() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.as_slice().last(), then v.as_slice_mut()[0].clear();
fn f136() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.as_slice().last(), then touch(&v.iter_mut().next());
fn f137() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.as_slice().last(), then v[0].clear();
fn f138() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.as_slice().last(), then touch(&v.into_iter().next());
fn f139() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.as_slice().last(), then touch(&v.into_inner());
fn f140() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.as_slice().last(), then v.clamp(String::new(), String::new());
fn f141() { let mut v = vec3(); let r = v.as_slice().last(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.as_slice().last(), then touch(&v.into_chunks::<U1>().next());
#[cfg(feature = "misuse")] fn f142() { let r = { let mut v = vec3(); v.as_slice().last() }; touch(&r); } // ! v.as_slice().last() outliving its container
fn f143() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.as_slice_mut(), then drop(v);
fn f144() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.as_slice_mut(), then v = vec3();
fn f145() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.as_slice_mut(), then let moved = v; touch(&moved);
fn f146() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.as_slice_mut(), then v.as_slice_mut()[0].clear();
fn f147() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.as_slice_mut(), then touch(&v.iter_mut().next());
fn f148() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.as_slice_mut(), then v[0].clear();
fn f149() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.as_slice_mut(), then touch(&v.into_iter().next());
fn f150() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.as_slice_mut(), then touch(&v.into_inner());
fn f151() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.as_slice_mut(), then v.clamp(String::new(), String::new());
fn f152() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.as_slice_mut(), then touch(&v.into_chunks::<U1>().next());
fn f153() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! v.as_slice_mut(), then touch(&v.len());
fn f154() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! v.as_slice_mut(), then touch(&v[0]);
fn f155() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! v.as_slice_mut(), then touch(&v.clone());
fn f156() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! v.as_slice_mut(), then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f157() { let r = { let mut v = vec3(); v.as_slice_mut() }; touch(&r); } // ! v.as_slice_mut() outliving its container
fn f158() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! &mut v[1], then drop(v);
fn f159() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! &mut v[1], then v = vec3();
fn f160() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! &mut v[1], then let moved = v; touch(&moved);
fn f161() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! &mut v[1], then v.as_slice_mut()[0].clear();
fn f162() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! &mut v[1], then touch(&v.iter_mut().next());
fn f163() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! &mut v[1], then v[0].clear();
fn f164() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! &mut v[1], then touch(&v.into_iter().next());
fn f165() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! &mut v[1], then touch(&v.into_inner());
fn f166() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! &mut v[1], then v.clamp(String::new(), String::new());
fn f167() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! &mut v[1], then touch(&v.into_chunks::<U1>().next());
fn f168() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! &mut v[1], then touch(&v.len());
fn f169() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! &mut v[1], then touch(&v[0]);
fn f170() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! &mut v[1], then touch(&v.clone());
fn f171() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! &mut v[1], then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f172() { let r = { let mut v = vec3(); &mut v[1] }; touch(&r); } // ! &mut v[1] outliving its container
fn f173() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! &mut v[U1::new()], then drop(v);
fn f174() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! &mut v[U1::new()], then v = vec3();
fn f175() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! &mut v[U1::new()], then let moved = v; touch(&moved);
fn f176() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! &mut v[U1::new()], then v.as_slice_mut()[0].clear();
fn f177() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! &mut v[U1::new()], then touch(&v.iter_mut().next());
fn f178() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! &mut v[U1::new()], then v[0].clear();
fn f179() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! &mut v[U1::new()], then touch(&v.into_iter().next());
fn f180() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! &mut v[U1::new()], then touch(&v.into_inner());
fn f181() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! &mut v[U1::new()], then v.clamp(String::new(), String::new());
fn f182() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! &mut v[U1::new()], then touch(&v.into_chunks::<U1>().next());
fn f183() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! &mut v[U1::new()], then touch(&v.len());
fn f184() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! &mut v[U1::new()], then touch(&v[0]);
fn f185() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! &mut v[U1::new()], then touch(&v.clone());
fn f186() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! &mut v[U1::new()], then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f187() { let r = { let mut v = vec3(); &mut v[U1::new()] }; touch(&r); } // ! &mut v[U1::new()] outliving its container
fn f188() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! &mut v[U0::new()], then drop(v);
fn f189() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! &mut v[U0::new()], then v = vec3();
fn f190() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! &mut v[U0::new()], then let moved = v; touch(&moved);
fn f191() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! &mut v[U0::new()], then v.as_slice_mut()[0].clear();
fn f192() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! &mut v[U0::new()], then touch(&v.iter_mut().next());
fn f193() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! &mut v[U0::new()], then v[0].clear();
fn f194() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! &mut v[U0::new()], then touch(&v.into_iter().next());
fn f195() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! &mut v[U0::new()], then touch(&v.into_inner());
fn f196() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! &mut v[U0::new()], then v.clamp(String::new(), String::new());
fn f197() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! &mut v[U0::new()], then touch(&v.into_chunks::<U1>().next());
fn f198() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! &mut v[U0::new()], then touch(&v.len());
fn f199() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! &mut v[U0::new()], then touch(&v[0]);
fn f200() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! &mut v[U0::new()], then touch(&v.clone());
fn f201() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! &mut v[U0::new()], then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f202() { let r = { let mut v = vec3(); &mut v[U0::new()] }; touch(&r); } // ! &mut v[U0::new()] outliving its container
fn f203() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.iter_mut(), then drop(v);
fn f204() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.iter_mut(), then v = vec3();
fn f205() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.iter_mut(), then let moved = v; touch(&moved);
fn f206() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.iter_mut(), then v.as_slice_mut()[0].clear();
fn f207() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.iter_mut(), then touch(&v.iter_mut().next());
fn f208() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.iter_mut(), then v[0].clear();
fn f209() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.iter_mut(), then touch(&v.into_iter().next());
fn f210() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.iter_mut(), then touch(&v.into_inner());
fn f211() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.iter_mut(), then v.clamp(String::new(), String::new());
fn f212() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.iter_mut(), then touch(&v.into_chunks::<U1>().next());
fn f213() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! v.iter_mut(), then touch(&v.len());
fn f214() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! v.iter_mut(), then touch(&v[0]);
fn f215() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! v.iter_mut(), then touch(&v.clone());
fn f216() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! v.iter_mut(), then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f217() { let r = { let mut v = vec3(); v.iter_mut() }; touch(&r); } // ! v.iter_mut() outliving its container
fn f218() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.iter_mut().next(), then drop(v);
fn f219() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.iter_mut().next(), then v = vec3();
fn f220() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.iter_mut().next(), then let moved = v; touch(&moved);
fn f221() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.iter_mut().next(), then v.as_slice_mut()[0].clear();
fn f222() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.iter_mut().next(), then touch(&v.iter_mut().next());
fn f223() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.iter_mut().next(), then v[0].clear();
fn f224() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.iter_mut().next(), then touch(&v.into_iter().next());
fn f225() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.iter_mut().next(), then touch(&v.into_inner());
fn f226() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.iter_mut().next(), then v.clamp(String::new(), String::new());
fn f227() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.iter_mut().next(), then touch(&v.into_chunks::<U1>().next());
fn f228() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! v.iter_mut().next(), then touch(&v.len());
fn f229() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! v.iter_mut().next(), then touch(&v[0]);
fn f230() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! v.iter_mut().next(), then touch(&v.clone());
fn f231() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! v.iter_mut().next(), then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f232() { let r = { let mut v = vec3(); v.iter_mut().next() }; touch(&r); } // ! v.iter_mut().next() outliving its container
fn f233() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! v.iter_mut().next_back(), then drop(v);
fn f234() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! v.iter_mut().next_back(), then v = vec3();
fn f235() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! v.iter_mut().next_back(), then let moved = v; touch(&moved);
fn f236() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! v.iter_mut().next_back(), then v.as_slice_mut()[0].clear();
fn f237() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! v.iter_mut().next_back(), then touch(&v.iter_mut().next());
fn f238() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! v.iter_mut().next_back(), then v[0].clear();
fn f239() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! v.iter_mut().next_back(), then touch(&v.into_iter().next());
fn f240() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! v.iter_mut().next_back(), then touch(&v.into_inner());
fn f241() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! v.iter_mut().next_back(), then v.clamp(String::new(), String::new());
fn f242() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! v.iter_mut().next_back(), then touch(&v.into_chunks::<U1>().next());
fn f243() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! v.iter_mut().next_back(), then touch(&v.len());
fn f244() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! v.iter_mut().next_back(), then touch(&v[0]);
fn f245() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! v.iter_mut().next_back(), then touch(&v.clone());
fn f246() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! v.iter_mut().next_back(), then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f247() { let r = { let mut v = vec3(); v.iter_mut().next_back() }; touch(&r); } // ! v.iter_mut().next_back() outliving its container
fn f248() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! &mut *v, then drop(v);
fn f249() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! &mut *v, then v = vec3();
fn f250() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! &mut *v, then let moved = v; touch(&moved);
fn f251() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! &mut *v, then v.as_slice_mut()[0].clear();
fn f252() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! &mut *v, then touch(&v.iter_mut().next());
fn f253() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! &mut *v, then v[0].clear();
fn f254() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! &mut *v, then touch(&v.into_iter().next());
fn f255() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! &mut *v, then touch(&v.into_inner());
fn f256() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! &mut *v, then v.clamp(String::new(), String::new());
fn f257() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! &mut *v, then touch(&v.into_chunks::<U1>().next());
fn f258() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! &mut *v, then touch(&v.len());
fn f259() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! &mut *v, then touch(&v[0]);
fn f260() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! &mut *v, then touch(&v.clone());
fn f261() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! &mut *v, then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f262() { let r = { let mut v = vec3(); &mut *v }; touch(&r); } // ! &mut *v outliving its container
fn f263() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then drop(v);
fn f264() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then v = vec3();
fn f265() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then let moved = v; touch(&moved);
fn f266() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then v.as_slice_mut()[0].clear();
fn f267() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then touch(&v.iter_mut().next());
fn f268() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then v[0].clear();
fn f269() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then touch(&v.into_iter().next());
fn f270() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then touch(&v.into_inner());
fn f271() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then v.clamp(String::new(), String::new());
fn f272() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then touch(&v.into_chunks::<U1>().next());
fn f273() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then touch(&v.len());
fn f274() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then touch(&v[0]);
fn f275() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then touch(&v.clone());
fn f276() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f277() { let r = { let mut v = vec3(); AsMut::<[String]>::as_mut(&mut v) }; touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v) outliving its container
fn f278() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then drop(v);
fn f279() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then v = vec3();
fn f280() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then let moved = v; touch(&moved);
fn f281() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then v.as_slice_mut()[0].clear();
fn f282() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then touch(&v.iter_mut().next());
fn f283() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then v[0].clear();
fn f284() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then touch(&v.into_iter().next());
fn f285() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then touch(&v.into_inner());
fn f286() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then v.clamp(String::new(), String::new());
fn f287() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then touch(&v.into_chunks::<U1>().next());
fn f288() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then touch(&v.len());
fn f289() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then touch(&v[0]);
fn f290() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then touch(&v.clone());
fn f291() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f292() { let r = { let mut v = vec3(); unsafe { v.get_unchecked_mut(1) } }; touch(&r); } // ! unsafe { v.get_unchecked_mut(1) } outliving its container
fn f293() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { drop(v); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then drop(v);
fn f294() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { v = vec3(); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then v = vec3();
fn f295() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let moved = v; touch(&moved); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then let moved = v; touch(&moved);
fn f296() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { v.as_slice_mut()[0].clear(); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then v.as_slice_mut()[0].clear();
fn f297() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.iter_mut().next()); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then touch(&v.iter_mut().next());
fn f298() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { v[0].clear(); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then v[0].clear();
fn f299() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.into_iter().next()); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then touch(&v.into_iter().next());
fn f300() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.into_inner()); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then touch(&v.into_inner());
fn f301() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { v.clamp(String::new(), String::new()); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then v.clamp(String::new(), String::new());
fn f302() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.into_chunks::<U1>().next()); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then touch(&v.into_chunks::<U1>().next());
fn f303() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.len()); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then touch(&v.len());
fn f304() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v[0]); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then touch(&v[0]);
fn f305() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.clone()); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then touch(&v.clone());
fn f306() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { touch(&v.iter().next()); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then touch(&v.iter().next());
#[cfg(feature = "misuse")] fn f307() { let r = { let mut v = vec3(); DerefMut::deref_mut(&mut v) }; touch(&r); } // ! DerefMut::deref_mut(&mut v) outliving its container
fn f308() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! v.as_slice_mut(), then v.as_slice_mut()
fn f309() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! v.as_slice_mut(), then &mut v[1]
fn f310() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! v.as_slice_mut(), then &mut v[U1::new()]
fn f311() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! v.as_slice_mut(), then &mut v[U0::new()]
fn f312() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! v.as_slice_mut(), then v.iter_mut()
fn f313() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! v.as_slice_mut(), then v.iter_mut().next()
fn f314() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! v.as_slice_mut(), then v.iter_mut().next_back()
fn f315() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! v.as_slice_mut(), then &mut *v
fn f316() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! v.as_slice_mut(), then AsMut::<[String]>::as_mut(&mut v)
fn f317() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! v.as_slice_mut(), then unsafe { v.get_unchecked_mut(1) }
fn f318() { let mut v = vec3(); let r = v.as_slice_mut(); #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! v.as_slice_mut(), then DerefMut::deref_mut(&mut v)
fn f319() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! &mut v[1], then v.as_slice_mut()
fn f320() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! &mut v[1], then &mut v[1]
fn f321() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! &mut v[1], then &mut v[U1::new()]
fn f322() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! &mut v[1], then &mut v[U0::new()]
fn f323() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! &mut v[1], then v.iter_mut()
fn f324() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! &mut v[1], then v.iter_mut().next()
fn f325() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! &mut v[1], then v.iter_mut().next_back()
fn f326() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! &mut v[1], then &mut *v
fn f327() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! &mut v[1], then AsMut::<[String]>::as_mut(&mut v)
fn f328() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! &mut v[1], then unsafe { v.get_unchecked_mut(1) }
fn f329() { let mut v = vec3(); let r = &mut v[1]; #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! &mut v[1], then DerefMut::deref_mut(&mut v)
fn f330() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! &mut v[U1::new()], then v.as_slice_mut()
fn f331() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! &mut v[U1::new()], then &mut v[1]
fn f332() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! &mut v[U1::new()], then &mut v[U1::new()]
fn f333() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! &mut v[U1::new()], then &mut v[U0::new()]
fn f334() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! &mut v[U1::new()], then v.iter_mut()
fn f335() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! &mut v[U1::new()], then v.iter_mut().next()
fn f336() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! &mut v[U1::new()], then v.iter_mut().next_back()
fn f337() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! &mut v[U1::new()], then &mut *v
fn f338() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! &mut v[U1::new()], then AsMut::<[String]>::as_mut(&mut v)
fn f339() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! &mut v[U1::new()], then unsafe { v.get_unchecked_mut(1) }
fn f340() { let mut v = vec3(); let r = &mut v[U1::new()]; #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! &mut v[U1::new()], then DerefMut::deref_mut(&mut v)
fn f341() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! &mut v[U0::new()], then v.as_slice_mut()
fn f342() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! &mut v[U0::new()], then &mut v[1]
fn f343() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! &mut v[U0::new()], then &mut v[U1::new()]
fn f344() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! &mut v[U0::new()], then &mut v[U0::new()]
fn f345() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! &mut v[U0::new()], then v.iter_mut()
fn f346() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! &mut v[U0::new()], then v.iter_mut().next()
fn f347() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! &mut v[U0::new()], then v.iter_mut().next_back()
fn f348() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! &mut v[U0::new()], then &mut *v
fn f349() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! &mut v[U0::new()], then AsMut::<[String]>::as_mut(&mut v)
fn f350() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! &mut v[U0::new()], then unsafe { v.get_unchecked_mut(1) }
fn f351() { let mut v = vec3(); let r = &mut v[U0::new()]; #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! &mut v[U0::new()], then DerefMut::deref_mut(&mut v)
fn f352() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! v.iter_mut(), then v.as_slice_mut()
fn f353() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! v.iter_mut(), then &mut v[1]
fn f354() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! v.iter_mut(), then &mut v[U1::new()]
fn f355() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! v.iter_mut(), then &mut v[U0::new()]
fn f356() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! v.iter_mut(), then v.iter_mut()
fn f357() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! v.iter_mut(), then v.iter_mut().next()
fn f358() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! v.iter_mut(), then v.iter_mut().next_back()
fn f359() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! v.iter_mut(), then &mut *v
fn f360() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! v.iter_mut(), then AsMut::<[String]>::as_mut(&mut v)
fn f361() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! v.iter_mut(), then unsafe { v.get_unchecked_mut(1) }
fn f362() { let mut v = vec3(); let r = v.iter_mut(); #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! v.iter_mut(), then DerefMut::deref_mut(&mut v)
fn f363() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! v.iter_mut().next(), then v.as_slice_mut()
fn f364() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! v.iter_mut().next(), then &mut v[1]
fn f365() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! v.iter_mut().next(), then &mut v[U1::new()]
fn f366() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! v.iter_mut().next(), then &mut v[U0::new()]
fn f367() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! v.iter_mut().next(), then v.iter_mut()
fn f368() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! v.iter_mut().next(), then v.iter_mut().next()
fn f369() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! v.iter_mut().next(), then v.iter_mut().next_back()
fn f370() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! v.iter_mut().next(), then &mut *v
fn f371() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! v.iter_mut().next(), then AsMut::<[String]>::as_mut(&mut v)
fn f372() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! v.iter_mut().next(), then unsafe { v.get_unchecked_mut(1) }
fn f373() { let mut v = vec3(); let r = v.iter_mut().next(); #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! v.iter_mut().next(), then DerefMut::deref_mut(&mut v)
fn f374() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then v.as_slice_mut()
fn f375() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then &mut v[1]
fn f376() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then &mut v[U1::new()]
fn f377() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then &mut v[U0::new()]
fn f378() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then v.iter_mut()
fn f379() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then v.iter_mut().next()
fn f380() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then v.iter_mut().next_back()
fn f381() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then &mut *v
fn f382() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then AsMut::<[String]>::as_mut(&mut v)
fn f383() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then unsafe { v.get_unchecked_mut(1) }
fn f384() { let mut v = vec3(); let r = v.iter_mut().next_back(); #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! v.iter_mut().next_back(), then DerefMut::deref_mut(&mut v)
fn f385() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! &mut *v, then v.as_slice_mut()
fn f386() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! &mut *v, then &mut v[1]
fn f387() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! &mut *v, then &mut v[U1::new()]
fn f388() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! &mut *v, then &mut v[U0::new()]
fn f389() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! &mut *v, then v.iter_mut()
fn f390() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! &mut *v, then v.iter_mut().next()
fn f391() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! &mut *v, then v.iter_mut().next_back()
fn f392() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! &mut *v, then &mut *v
fn f393() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! &mut *v, then AsMut::<[String]>::as_mut(&mut v)
fn f394() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! &mut *v, then unsafe { v.get_unchecked_mut(1) }
fn f395() { let mut v = vec3(); let r = &mut *v; #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! &mut *v, then DerefMut::deref_mut(&mut v)
fn f396() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then v.as_slice_mut()
fn f397() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then &mut v[1]
fn f398() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then &mut v[U1::new()]
fn f399() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then &mut v[U0::new()]
fn f400() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then v.iter_mut()
fn f401() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then v.iter_mut().next()
fn f402() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then v.iter_mut().next_back()
fn f403() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then &mut *v
fn f404() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then AsMut::<[String]>::as_mut(&mut v)
fn f405() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then unsafe { v.get_unchecked_mut(1) }
fn f406() { let mut v = vec3(); let r = AsMut::<[String]>::as_mut(&mut v); #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! AsMut::<[String]>::as_mut(&mut v), then DerefMut::deref_mut(&mut v)
fn f407() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then v.as_slice_mut()
fn f408() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then &mut v[1]
fn f409() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then &mut v[U1::new()]
fn f410() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then &mut v[U0::new()]
fn f411() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then v.iter_mut()
fn f412() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then v.iter_mut().next()
fn f413() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then v.iter_mut().next_back()
fn f414() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then &mut *v
fn f415() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then AsMut::<[String]>::as_mut(&mut v)
fn f416() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then unsafe { v.get_unchecked_mut(1) }
fn f417() { let mut v = vec3(); let r = unsafe { v.get_unchecked_mut(1) }; #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! unsafe { v.get_unchecked_mut(1) }, then DerefMut::deref_mut(&mut v)
fn f418() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = v.as_slice_mut(); touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then v.as_slice_mut()
fn f419() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = &mut v[1]; touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then &mut v[1]
fn f420() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = &mut v[U1::new()]; touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then &mut v[U1::new()]
fn f421() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = &mut v[U0::new()]; touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then &mut v[U0::new()]
fn f422() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = v.iter_mut(); touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then v.iter_mut()
fn f423() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = v.iter_mut().next(); touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then v.iter_mut().next()
fn f424() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = v.iter_mut().next_back(); touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then v.iter_mut().next_back()
fn f425() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = &mut *v; touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then &mut *v
fn f426() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = AsMut::<[String]>::as_mut(&mut v); touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then AsMut::<[String]>::as_mut(&mut v)
fn f427() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = unsafe { v.get_unchecked_mut(1) }; touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then unsafe { v.get_unchecked_mut(1) }
fn f428() { let mut v = vec3(); let r = DerefMut::deref_mut(&mut v); #[cfg(feature = "misuse")] { let s = DerefMut::deref_mut(&mut v); touch(&s); } touch(&r); } // ! DerefMut::deref_mut(&mut v), then DerefMut::deref_mut(&mut v)
fn f429() { let mut m = mat23(); let r = &m[(1, 2)]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &m[(1, 2)], then drop(m);
fn f430() { let mut m = mat23(); let r = &m[(1, 2)]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &m[(1, 2)], then m = mat23();
fn f431() { let mut m = mat23(); let r = &m[(1, 2)]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &m[(1, 2)], then let moved = m; touch(&moved);
fn f432() { let mut m = mat23(); let r = &m[(1, 2)]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &m[(1, 2)], then m[(0, 0)].clear();
fn f433() { let mut m = mat23(); let r = &m[(1, 2)]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &m[(1, 2)], then m[(U0::new(), U0::new())].clear();
fn f434() { let mut m = mat23(); let r = &m[(1, 2)]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &m[(1, 2)], then touch(&m.map(|_, x| x));
fn f435() { let mut m = mat23(); let r = &m[(1, 2)]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &m[(1, 2)], then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f436() { let r = { let mut m = mat23(); &m[(1, 2)] }; touch(&r); } // ! &m[(1, 2)] outliving its container
fn f437() { let mut m = mat23(); let r = &m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &m[(U1::new(), U2::new())], then drop(m);
fn f438() { let mut m = mat23(); let r = &m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &m[(U1::new(), U2::new())], then m = mat23();
fn f439() { let mut m = mat23(); let r = &m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &m[(U1::new(), U2::new())], then let moved = m; touch(&moved);
fn f440() { let mut m = mat23(); let r = &m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &m[(U1::new(), U2::new())], then m[(0, 0)].clear();
fn f441() { let mut m = mat23(); let r = &m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &m[(U1::new(), U2::new())], then m[(U0::new(), U0::new())].clear();
fn f442() { let mut m = mat23(); let r = &m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &m[(U1::new(), U2::new())], then touch(&m.map(|_, x| x));
fn f443() { let mut m = mat23(); let r = &m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &m[(U1::new(), U2::new())], then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f444() { let r = { let mut m = mat23(); &m[(U1::new(), U2::new())] }; touch(&r); } // ! &m[(U1::new(), U2::new())] outliving its container
fn f445() { let mut m = mat23(); let r = &m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &m[(U0::new(), U0::new())], then drop(m);
fn f446() { let mut m = mat23(); let r = &m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &m[(U0::new(), U0::new())], then m = mat23();
fn f447() { let mut m = mat23(); let r = &m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &m[(U0::new(), U0::new())], then let moved = m; touch(&moved);
fn f448() { let mut m = mat23(); let r = &m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &m[(U0::new(), U0::new())], then m[(0, 0)].clear();
fn f449() { let mut m = mat23(); let r = &m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &m[(U0::new(), U0::new())], then m[(U0::new(), U0::new())].clear();
fn f450() { let mut m = mat23(); let r = &m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &m[(U0::new(), U0::new())], then touch(&m.map(|_, x| x));
fn f451() { let mut m = mat23(); let r = &m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &m[(U0::new(), U0::new())], then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f452() { let r = { let mut m = mat23(); &m[(U0::new(), U0::new())] }; touch(&r); } // ! &m[(U0::new(), U0::new())] outliving its container
fn f453() { let mut m = mat23(); let r = &m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &m[(U1::new(), U0::new())], then drop(m);
fn f454() { let mut m = mat23(); let r = &m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &m[(U1::new(), U0::new())], then m = mat23();
fn f455() { let mut m = mat23(); let r = &m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &m[(U1::new(), U0::new())], then let moved = m; touch(&moved);
fn f456() { let mut m = mat23(); let r = &m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &m[(U1::new(), U0::new())], then m[(0, 0)].clear();
fn f457() { let mut m = mat23(); let r = &m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &m[(U1::new(), U0::new())], then m[(U0::new(), U0::new())].clear();
fn f458() { let mut m = mat23(); let r = &m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &m[(U1::new(), U0::new())], then touch(&m.map(|_, x| x));
fn f459() { let mut m = mat23(); let r = &m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &m[(U1::new(), U0::new())], then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f460() { let r = { let mut m = mat23(); &m[(U1::new(), U0::new())] }; touch(&r); } // ! &m[(U1::new(), U0::new())] outliving its container
fn f461() { let mut m = mat23(); let r = &m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &m[(U0::new(), U2::new())], then drop(m);
fn f462() { let mut m = mat23(); let r = &m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &m[(U0::new(), U2::new())], then m = mat23();
fn f463() { let mut m = mat23(); let r = &m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &m[(U0::new(), U2::new())], then let moved = m; touch(&moved);
fn f464() { let mut m = mat23(); let r = &m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &m[(U0::new(), U2::new())], then m[(0, 0)].clear();
fn f465() { let mut m = mat23(); let r = &m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &m[(U0::new(), U2::new())], then m[(U0::new(), U0::new())].clear();
fn f466() { let mut m = mat23(); let r = &m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &m[(U0::new(), U2::new())], then touch(&m.map(|_, x| x));
fn f467() { let mut m = mat23(); let r = &m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &m[(U0::new(), U2::new())], then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f468() { let r = { let mut m = mat23(); &m[(U0::new(), U2::new())] }; touch(&r); } // ! &m[(U0::new(), U2::new())] outliving its container
fn f469() { let mut m = mat23(); let r = unsafe { m.get_unchecked((1, 2)) }; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! unsafe { m.get_unchecked((1, 2)) }, then drop(m);
fn f470() { let mut m = mat23(); let r = unsafe { m.get_unchecked((1, 2)) }; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! unsafe { m.get_unchecked((1, 2)) }, then m = mat23();
fn f471() { let mut m = mat23(); let r = unsafe { m.get_unchecked((1, 2)) }; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! unsafe { m.get_unchecked((1, 2)) }, then let moved = m; touch(&moved);
fn f472() { let mut m = mat23(); let r = unsafe { m.get_unchecked((1, 2)) }; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! unsafe { m.get_unchecked((1, 2)) }, then m[(0, 0)].clear();
fn f473() { let mut m = mat23(); let r = unsafe { m.get_unchecked((1, 2)) }; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! unsafe { m.get_unchecked((1, 2)) }, then m[(U0::new(), U0::new())].clear();
fn f474() { let mut m = mat23(); let r = unsafe { m.get_unchecked((1, 2)) }; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! unsafe { m.get_unchecked((1, 2)) }, then touch(&m.map(|_, x| x));
fn f475() { let mut m = mat23(); let r = unsafe { m.get_unchecked((1, 2)) }; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! unsafe { m.get_unchecked((1, 2)) }, then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f476() { let r = { let mut m = mat23(); unsafe { m.get_unchecked((1, 2)) } }; touch(&r); } // ! unsafe { m.get_unchecked((1, 2)) } outliving its container
fn f477() { let mut m = mat23(); let r = m.rows_iter(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter(), then drop(m);
fn f478() { let mut m = mat23(); let r = m.rows_iter(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter(), then m = mat23();
fn f479() { let mut m = mat23(); let r = m.rows_iter(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter(), then let moved = m; touch(&moved);
fn f480() { let mut m = mat23(); let r = m.rows_iter(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter(), then m[(0, 0)].clear();
fn f481() { let mut m = mat23(); let r = m.rows_iter(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter(), then m[(U0::new(), U0::new())].clear();
fn f482() { let mut m = mat23(); let r = m.rows_iter(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter(), then touch(&m.map(|_, x| x));
fn f483() { let mut m = mat23(); let r = m.rows_iter(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f484() { let r = { let mut m = mat23(); m.rows_iter() }; touch(&r); } // ! m.rows_iter() outliving its container
fn f485() { let mut m = mat23(); let r = m.cols_iter(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter(), then drop(m);
fn f486() { let mut m = mat23(); let r = m.cols_iter(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter(), then m = mat23();
fn f487() { let mut m = mat23(); let r = m.cols_iter(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter(), then let moved = m; touch(&moved);
fn f488() { let mut m = mat23(); let r = m.cols_iter(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter(), then m[(0, 0)].clear();
fn f489() { let mut m = mat23(); let r = m.cols_iter(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter(), then m[(U0::new(), U0::new())].clear();
fn f490() { let mut m = mat23(); let r = m.cols_iter(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter(), then touch(&m.map(|_, x| x));
fn f491() { let mut m = mat23(); let r = m.cols_iter(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f492() { let r = { let mut m = mat23(); m.cols_iter() }; touch(&r); } // ! m.cols_iter() outliving its container
fn f493() { let mut m = mat23(); let r = m.rows_iter_ref(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter_ref(), then drop(m);
fn f494() { let mut m = mat23(); let r = m.rows_iter_ref(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter_ref(), then m = mat23();
fn f495() { let mut m = mat23(); let r = m.rows_iter_ref(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter_ref(), then let moved = m; touch(&moved);
fn f496() { let mut m = mat23(); let r = m.rows_iter_ref(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter_ref(), then m[(0, 0)].clear();
fn f497() { let mut m = mat23(); let r = m.rows_iter_ref(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter_ref(), then m[(U0::new(), U0::new())].clear();
fn f498() { let mut m = mat23(); let r = m.rows_iter_ref(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter_ref(), then touch(&m.map(|_, x| x));
fn f499() { let mut m = mat23(); let r = m.rows_iter_ref(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter_ref(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f500() { let r = { let mut m = mat23(); m.rows_iter_ref() }; touch(&r); } // ! m.rows_iter_ref() outliving its container
fn f501() { let mut m = mat23(); let r = m.rows_iter_ref().next(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter_ref().next(), then drop(m);
fn f502() { let mut m = mat23(); let r = m.rows_iter_ref().next(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter_ref().next(), then m = mat23();
fn f503() { let mut m = mat23(); let r = m.rows_iter_ref().next(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter_ref().next(), then let moved = m; touch(&moved);
fn f504() { let mut m = mat23(); let r = m.rows_iter_ref().next(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter_ref().next(), then m[(0, 0)].clear();
fn f505() { let mut m = mat23(); let r = m.rows_iter_ref().next(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter_ref().next(), then m[(U0::new(), U0::new())].clear();
fn f506() { let mut m = mat23(); let r = m.rows_iter_ref().next(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter_ref().next(), then touch(&m.map(|_, x| x));
fn f507() { let mut m = mat23(); let r = m.rows_iter_ref().next(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter_ref().next(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f508() { let r = { let mut m = mat23(); m.rows_iter_ref().next() }; touch(&r); } // ! m.rows_iter_ref().next() outliving its container
fn f509() { let mut m = mat23(); let r = m.rows_iter_ref().next_back(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter_ref().next_back(), then drop(m);
fn f510() { let mut m = mat23(); let r = m.rows_iter_ref().next_back(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter_ref().next_back(), then m = mat23();
fn f511() { let mut m = mat23(); let r = m.rows_iter_ref().next_back(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter_ref().next_back(), then let moved = m; touch(&moved);
fn f512() { let mut m = mat23(); let r = m.rows_iter_ref().next_back(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter_ref().next_back(), then m[(0, 0)].clear();
fn f513() { let mut m = mat23(); let r = m.rows_iter_ref().next_back(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter_ref().next_back(), then m[(U0::new(), U0::new())].clear();
fn f514() { let mut m = mat23(); let r = m.rows_iter_ref().next_back(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter_ref().next_back(), then touch(&m.map(|_, x| x));
fn f515() { let mut m = mat23(); let r = m.rows_iter_ref().next_back(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter_ref().next_back(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f516() { let r = { let mut m = mat23(); m.rows_iter_ref().next_back() }; touch(&r); } // ! m.rows_iter_ref().next_back() outliving its container
fn f517() { let mut m = mat23(); let r = m.rows_iter_ref().nth(1); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter_ref().nth(1), then drop(m);
fn f518() { let mut m = mat23(); let r = m.rows_iter_ref().nth(1); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter_ref().nth(1), then m = mat23();
fn f519() { let mut m = mat23(); let r = m.rows_iter_ref().nth(1); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter_ref().nth(1), then let moved = m; touch(&moved);
fn f520() { let mut m = mat23(); let r = m.rows_iter_ref().nth(1); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter_ref().nth(1), then m[(0, 0)].clear();
fn f521() { let mut m = mat23(); let r = m.rows_iter_ref().nth(1); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter_ref().nth(1), then m[(U0::new(), U0::new())].clear();
fn f522() { let mut m = mat23(); let r = m.rows_iter_ref().nth(1); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter_ref().nth(1), then touch(&m.map(|_, x| x));
fn f523() { let mut m = mat23(); let r = m.rows_iter_ref().nth(1); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter_ref().nth(1), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f524() { let r = { let mut m = mat23(); m.rows_iter_ref().nth(1) }; touch(&r); } // ! m.rows_iter_ref().nth(1) outliving its container
fn f525() { let mut m = mat23(); let r = m.rows_iter_ref().last(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter_ref().last(), then drop(m);
fn f526() { let mut m = mat23(); let r = m.rows_iter_ref().last(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter_ref().last(), then m = mat23();
fn f527() { let mut m = mat23(); let r = m.rows_iter_ref().last(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter_ref().last(), then let moved = m; touch(&moved);
fn f528() { let mut m = mat23(); let r = m.rows_iter_ref().last(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter_ref().last(), then m[(0, 0)].clear();
fn f529() { let mut m = mat23(); let r = m.rows_iter_ref().last(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter_ref().last(), then m[(U0::new(), U0::new())].clear();
fn f530() { let mut m = mat23(); let r = m.rows_iter_ref().last(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter_ref().last(), then touch(&m.map(|_, x| x));
fn f531() { let mut m = mat23(); let r = m.rows_iter_ref().last(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter_ref().last(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f532() { let r = { let mut m = mat23(); m.rows_iter_ref().last() }; touch(&r); } // ! m.rows_iter_ref().last() outliving its container
fn f533() { let mut m = mat23(); let r = m.rows_iter_ref().rev(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter_ref().rev(), then drop(m);
fn f534() { let mut m = mat23(); let r = m.rows_iter_ref().rev(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter_ref().rev(), then m = mat23();
fn f535() { let mut m = mat23(); let r = m.rows_iter_ref().rev(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter_ref().rev(), then let moved = m; touch(&moved);
fn f536() { let mut m = mat23(); let r = m.rows_iter_ref().rev(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter_ref().rev(), then m[(0, 0)].clear();
fn f537() { let mut m = mat23(); let r = m.rows_iter_ref().rev(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter_ref().rev(), then m[(U0::new(), U0::new())].clear();
fn f538() { let mut m = mat23(); let r = m.rows_iter_ref().rev(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter_ref().rev(), then touch(&m.map(|_, x| x));
fn f539() { let mut m = mat23(); let r = m.rows_iter_ref().rev(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter_ref().rev(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f540() { let r = { let mut m = mat23(); m.rows_iter_ref().rev() }; touch(&r); } // ! m.rows_iter_ref().rev() outliving its container
fn f541() { let mut m = mat23(); let r = m.rows_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter_ref().skip(1).next(), then drop(m);
fn f542() { let mut m = mat23(); let r = m.rows_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter_ref().skip(1).next(), then m = mat23();
fn f543() { let mut m = mat23(); let r = m.rows_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter_ref().skip(1).next(), then let moved = m; touch(&moved);
fn f544() { let mut m = mat23(); let r = m.rows_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter_ref().skip(1).next(), then m[(0, 0)].clear();
fn f545() { let mut m = mat23(); let r = m.rows_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter_ref().skip(1).next(), then m[(U0::new(), U0::new())].clear();
fn f546() { let mut m = mat23(); let r = m.rows_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter_ref().skip(1).next(), then touch(&m.map(|_, x| x));
fn f547() { let mut m = mat23(); let r = m.rows_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter_ref().skip(1).next(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f548() { let r = { let mut m = mat23(); m.rows_iter_ref().skip(1).next() }; touch(&r); } // ! m.rows_iter_ref().skip(1).next() outliving its container
fn f549() { let mut m = mat23(); let r = m.cols_iter_ref(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref(), then drop(m);
fn f550() { let mut m = mat23(); let r = m.cols_iter_ref(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref(), then m = mat23();
fn f551() { let mut m = mat23(); let r = m.cols_iter_ref(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref(), then let moved = m; touch(&moved);
fn f552() { let mut m = mat23(); let r = m.cols_iter_ref(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref(), then m[(0, 0)].clear();
fn f553() { let mut m = mat23(); let r = m.cols_iter_ref(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref(), then m[(U0::new(), U0::new())].clear();
fn f554() { let mut m = mat23(); let r = m.cols_iter_ref(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref(), then touch(&m.map(|_, x| x));
fn f555() { let mut m = mat23(); let r = m.cols_iter_ref(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f556() { let r = { let mut m = mat23(); m.cols_iter_ref() }; touch(&r); } // ! m.cols_iter_ref() outliving its container
fn f557() { let mut m = mat23(); let r = m.cols_iter_ref().next(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().next(), then drop(m);
fn f558() { let mut m = mat23(); let r = m.cols_iter_ref().next(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().next(), then m = mat23();
fn f559() { let mut m = mat23(); let r = m.cols_iter_ref().next(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().next(), then let moved = m; touch(&moved);
fn f560() { let mut m = mat23(); let r = m.cols_iter_ref().next(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().next(), then m[(0, 0)].clear();
fn f561() { let mut m = mat23(); let r = m.cols_iter_ref().next(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().next(), then m[(U0::new(), U0::new())].clear();
fn f562() { let mut m = mat23(); let r = m.cols_iter_ref().next(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().next(), then touch(&m.map(|_, x| x));
fn f563() { let mut m = mat23(); let r = m.cols_iter_ref().next(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().next(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f564() { let r = { let mut m = mat23(); m.cols_iter_ref().next() }; touch(&r); } // ! m.cols_iter_ref().next() outliving its container
fn f565() { let mut m = mat23(); let r = m.cols_iter_ref().next_back(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().next_back(), then drop(m);
fn f566() { let mut m = mat23(); let r = m.cols_iter_ref().next_back(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().next_back(), then m = mat23();
fn f567() { let mut m = mat23(); let r = m.cols_iter_ref().next_back(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().next_back(), then let moved = m; touch(&moved);
fn f568() { let mut m = mat23(); let r = m.cols_iter_ref().next_back(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().next_back(), then m[(0, 0)].clear();
fn f569() { let mut m = mat23(); let r = m.cols_iter_ref().next_back(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().next_back(), then m[(U0::new(), U0::new())].clear();
fn f570() { let mut m = mat23(); let r = m.cols_iter_ref().next_back(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().next_back(), then touch(&m.map(|_, x| x));
fn f571() { let mut m = mat23(); let r = m.cols_iter_ref().next_back(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().next_back(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f572() { let r = { let mut m = mat23(); m.cols_iter_ref().next_back() }; touch(&r); } // ! m.cols_iter_ref().next_back() outliving its container
fn f573() { let mut m = mat23(); let r = m.cols_iter_ref().nth(1); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().nth(1), then drop(m);
fn f574() { let mut m = mat23(); let r = m.cols_iter_ref().nth(1); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().nth(1), then m = mat23();
fn f575() { let mut m = mat23(); let r = m.cols_iter_ref().nth(1); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().nth(1), then let moved = m; touch(&moved);
fn f576() { let mut m = mat23(); let r = m.cols_iter_ref().nth(1); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().nth(1), then m[(0, 0)].clear();
fn f577() { let mut m = mat23(); let r = m.cols_iter_ref().nth(1); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().nth(1), then m[(U0::new(), U0::new())].clear();
fn f578() { let mut m = mat23(); let r = m.cols_iter_ref().nth(1); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().nth(1), then touch(&m.map(|_, x| x));
fn f579() { let mut m = mat23(); let r = m.cols_iter_ref().nth(1); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().nth(1), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f580() { let r = { let mut m = mat23(); m.cols_iter_ref().nth(1) }; touch(&r); } // ! m.cols_iter_ref().nth(1) outliving its container
fn f581() { let mut m = mat23(); let r = m.cols_iter_ref().last(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().last(), then drop(m);
fn f582() { let mut m = mat23(); let r = m.cols_iter_ref().last(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().last(), then m = mat23();
fn f583() { let mut m = mat23(); let r = m.cols_iter_ref().last(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().last(), then let moved = m; touch(&moved);
fn f584() { let mut m = mat23(); let r = m.cols_iter_ref().last(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().last(), then m[(0, 0)].clear();
fn f585() { let mut m = mat23(); let r = m.cols_iter_ref().last(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().last(), then m[(U0::new(), U0::new())].clear();
fn f586() { let mut m = mat23(); let r = m.cols_iter_ref().last(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().last(), then touch(&m.map(|_, x| x));
fn f587() { let mut m = mat23(); let r = m.cols_iter_ref().last(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().last(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f588() { let r = { let mut m = mat23(); m.cols_iter_ref().last() }; touch(&r); } // ! m.cols_iter_ref().last() outliving its container
fn f589() { let mut m = mat23(); let r = m.cols_iter_ref().rev(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().rev(), then drop(m);
fn f590() { let mut m = mat23(); let r = m.cols_iter_ref().rev(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().rev(), then m = mat23();
fn f591() { let mut m = mat23(); let r = m.cols_iter_ref().rev(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().rev(), then let moved = m; touch(&moved);
fn f592() { let mut m = mat23(); let r = m.cols_iter_ref().rev(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().rev(), then m[(0, 0)].clear();
fn f593() { let mut m = mat23(); let r = m.cols_iter_ref().rev(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().rev(), then m[(U0::new(), U0::new())].clear();
fn f594() { let mut m = mat23(); let r = m.cols_iter_ref().rev(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().rev(), then touch(&m.map(|_, x| x));
fn f595() { let mut m = mat23(); let r = m.cols_iter_ref().rev(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().rev(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f596() { let r = { let mut m = mat23(); m.cols_iter_ref().rev() }; touch(&r); } // ! m.cols_iter_ref().rev() outliving its container
fn f597() { let mut m = mat23(); let r = m.cols_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().skip(1).next(), then drop(m);
fn f598() { let mut m = mat23(); let r = m.cols_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().skip(1).next(), then m = mat23();
fn f599() { let mut m = mat23(); let r = m.cols_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().skip(1).next(), then let moved = m; touch(&moved);
fn f600() { let mut m = mat23(); let r = m.cols_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().skip(1).next(), then m[(0, 0)].clear();
fn f601() { let mut m = mat23(); let r = m.cols_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().skip(1).next(), then m[(U0::new(), U0::new())].clear();
fn f602() { let mut m = mat23(); let r = m.cols_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().skip(1).next(), then touch(&m.map(|_, x| x));
fn f603() { let mut m = mat23(); let r = m.cols_iter_ref().skip(1).next(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().skip(1).next(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f604() { let r = { let mut m = mat23(); m.cols_iter_ref().skip(1).next() }; touch(&r); } // ! m.cols_iter_ref().skip(1).next() outliving its container
fn f605() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next(), then drop(m);
fn f606() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next(), then m = mat23();
fn f607() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next(), then let moved = m; touch(&moved);
fn f608() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next(), then m[(0, 0)].clear();
fn f609() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next(), then m[(U0::new(), U0::new())].clear();
fn f610() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next(), then touch(&m.map(|_, x| x));
fn f611() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f612() { let r = { let mut m = mat23(); m.cols_iter_ref().next().unwrap().next() }; touch(&r); } // ! m.cols_iter_ref().next().unwrap().next() outliving its container
fn f613() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next_back(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next_back(), then drop(m);
fn f614() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next_back(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next_back(), then m = mat23();
fn f615() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next_back(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next_back(), then let moved = m; touch(&moved);
fn f616() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next_back(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next_back(), then m[(0, 0)].clear();
fn f617() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next_back(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next_back(), then m[(U0::new(), U0::new())].clear();
fn f618() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next_back(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next_back(), then touch(&m.map(|_, x| x));
fn f619() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().next_back(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().next_back(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f620() { let r = { let mut m = mat23(); m.cols_iter_ref().next().unwrap().next_back() }; touch(&r); } // ! m.cols_iter_ref().next().unwrap().next_back() outliving its container
fn f621() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().nth(1); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().nth(1), then drop(m);
fn f622() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().nth(1); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().nth(1), then m = mat23();
fn f623() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().nth(1); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().nth(1), then let moved = m; touch(&moved);
fn f624() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().nth(1); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().nth(1), then m[(0, 0)].clear();
fn f625() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().nth(1); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().nth(1), then m[(U0::new(), U0::new())].clear();
fn f626() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().nth(1); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().nth(1), then touch(&m.map(|_, x| x));
fn f627() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().nth(1); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().nth(1), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f628() { let r = { let mut m = mat23(); m.cols_iter_ref().next().unwrap().nth(1) }; touch(&r); } // ! m.cols_iter_ref().next().unwrap().nth(1) outliving its container
fn f629() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().last(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().last(), then drop(m);
fn f630() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().last(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().last(), then m = mat23();
fn f631() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().last(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().last(), then let moved = m; touch(&moved);
fn f632() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().last(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().last(), then m[(0, 0)].clear();
fn f633() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().last(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().last(), then m[(U0::new(), U0::new())].clear();
fn f634() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().last(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().last(), then touch(&m.map(|_, x| x));
fn f635() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().last(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().last(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f636() { let r = { let mut m = mat23(); m.cols_iter_ref().next().unwrap().last() }; touch(&r); } // ! m.cols_iter_ref().next().unwrap().last() outliving its container
fn f637() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().map(|x| x.as_str()); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().map(|x| x.as_str()), then drop(m);
fn f638() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().map(|x| x.as_str()); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().map(|x| x.as_str()), then m = mat23();
fn f639() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().map(|x| x.as_str()); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().map(|x| x.as_str()), then let moved = m; touch(&moved);
fn f640() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().map(|x| x.as_str()); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().map(|x| x.as_str()), then m[(0, 0)].clear();
fn f641() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().map(|x| x.as_str()); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().map(|x| x.as_str()), then m[(U0::new(), U0::new())].clear();
fn f642() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().map(|x| x.as_str()); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().map(|x| x.as_str()), then touch(&m.map(|_, x| x));
fn f643() { let mut m = mat23(); let r = m.cols_iter_ref().next().unwrap().map(|x| x.as_str()); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.cols_iter_ref().next().unwrap().map(|x| x.as_str()), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f644() { let r = { let mut m = mat23(); m.cols_iter_ref().next().unwrap().map(|x| x.as_str()) }; touch(&r); } // ! m.cols_iter_ref().next().unwrap().map(|x| x.as_str()) outliving its container
fn f645() { let mut m = mat23(); let r = m.rows_iter_ref().next().unwrap().iter(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter_ref().next().unwrap().iter(), then drop(m);
fn f646() { let mut m = mat23(); let r = m.rows_iter_ref().next().unwrap().iter(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter_ref().next().unwrap().iter(), then m = mat23();
fn f647() { let mut m = mat23(); let r = m.rows_iter_ref().next().unwrap().iter(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter_ref().next().unwrap().iter(), then let moved = m; touch(&moved);
fn f648() { let mut m = mat23(); let r = m.rows_iter_ref().next().unwrap().iter(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter_ref().next().unwrap().iter(), then m[(0, 0)].clear();
fn f649() { let mut m = mat23(); let r = m.rows_iter_ref().next().unwrap().iter(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter_ref().next().unwrap().iter(), then m[(U0::new(), U0::new())].clear();
fn f650() { let mut m = mat23(); let r = m.rows_iter_ref().next().unwrap().iter(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter_ref().next().unwrap().iter(), then touch(&m.map(|_, x| x));
fn f651() { let mut m = mat23(); let r = m.rows_iter_ref().next().unwrap().iter(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter_ref().next().unwrap().iter(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f652() { let r = { let mut m = mat23(); m.rows_iter_ref().next().unwrap().iter() }; touch(&r); } // ! m.rows_iter_ref().next().unwrap().iter() outliving its container
fn f653() { let mut m = mat23(); let r = m.rows_iter_ref().collect::<Vec<_>>(); #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! m.rows_iter_ref().collect::<Vec<_>>(), then drop(m);
fn f654() { let mut m = mat23(); let r = m.rows_iter_ref().collect::<Vec<_>>(); #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! m.rows_iter_ref().collect::<Vec<_>>(), then m = mat23();
fn f655() { let mut m = mat23(); let r = m.rows_iter_ref().collect::<Vec<_>>(); #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! m.rows_iter_ref().collect::<Vec<_>>(), then let moved = m; touch(&moved);
fn f656() { let mut m = mat23(); let r = m.rows_iter_ref().collect::<Vec<_>>(); #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! m.rows_iter_ref().collect::<Vec<_>>(), then m[(0, 0)].clear();
fn f657() { let mut m = mat23(); let r = m.rows_iter_ref().collect::<Vec<_>>(); #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! m.rows_iter_ref().collect::<Vec<_>>(), then m[(U0::new(), U0::new())].clear();
fn f658() { let mut m = mat23(); let r = m.rows_iter_ref().collect::<Vec<_>>(); #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! m.rows_iter_ref().collect::<Vec<_>>(), then touch(&m.map(|_, x| x));
fn f659() { let mut m = mat23(); let r = m.rows_iter_ref().collect::<Vec<_>>(); #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! m.rows_iter_ref().collect::<Vec<_>>(), then m.clamp(String::new(), String::new());
#[cfg(feature = "misuse")] fn f660() { let r = { let mut m = mat23(); m.rows_iter_ref().collect::<Vec<_>>() }; touch(&r); } // ! m.rows_iter_ref().collect::<Vec<_>>() outliving its container
fn f661() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &mut m[(1, 2)], then drop(m);
fn f662() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &mut m[(1, 2)], then m = mat23();
fn f663() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &mut m[(1, 2)], then let moved = m; touch(&moved);
fn f664() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &mut m[(1, 2)], then m[(0, 0)].clear();
fn f665() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &mut m[(1, 2)], then m[(U0::new(), U0::new())].clear();
fn f666() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &mut m[(1, 2)], then touch(&m.map(|_, x| x));
fn f667() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &mut m[(1, 2)], then m.clamp(String::new(), String::new());
fn f668() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { touch(&m.rows()); } touch(&r); } // ! &mut m[(1, 2)], then touch(&m.rows());
fn f669() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { touch(&m[(0, 0)]); } touch(&r); } // ! &mut m[(1, 2)], then touch(&m[(0, 0)]);
fn f670() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { touch(&m.clone()); } touch(&r); } // ! &mut m[(1, 2)], then touch(&m.clone());
fn f671() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { touch(&m.rows_iter_ref().next()); } touch(&r); } // ! &mut m[(1, 2)], then touch(&m.rows_iter_ref().next());
#[cfg(feature = "misuse")] fn f672() { let r = { let mut m = mat23(); &mut m[(1, 2)] }; touch(&r); } // ! &mut m[(1, 2)] outliving its container
fn f673() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then drop(m);
fn f674() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then m = mat23();
fn f675() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then let moved = m; touch(&moved);
fn f676() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then m[(0, 0)].clear();
fn f677() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then m[(U0::new(), U0::new())].clear();
fn f678() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then touch(&m.map(|_, x| x));
fn f679() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then m.clamp(String::new(), String::new());
fn f680() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.rows()); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then touch(&m.rows());
fn f681() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m[(0, 0)]); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then touch(&m[(0, 0)]);
fn f682() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.clone()); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then touch(&m.clone());
fn f683() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.rows_iter_ref().next()); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then touch(&m.rows_iter_ref().next());
#[cfg(feature = "misuse")] fn f684() { let r = { let mut m = mat23(); &mut m[(U1::new(), U2::new())] }; touch(&r); } // ! &mut m[(U1::new(), U2::new())] outliving its container
fn f685() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then drop(m);
fn f686() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then m = mat23();
fn f687() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then let moved = m; touch(&moved);
fn f688() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then m[(0, 0)].clear();
fn f689() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then m[(U0::new(), U0::new())].clear();
fn f690() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then touch(&m.map(|_, x| x));
fn f691() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then m.clamp(String::new(), String::new());
fn f692() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.rows()); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then touch(&m.rows());
fn f693() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m[(0, 0)]); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then touch(&m[(0, 0)]);
fn f694() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.clone()); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then touch(&m.clone());
fn f695() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.rows_iter_ref().next()); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then touch(&m.rows_iter_ref().next());
#[cfg(feature = "misuse")] fn f696() { let r = { let mut m = mat23(); &mut m[(U0::new(), U0::new())] }; touch(&r); } // ! &mut m[(U0::new(), U0::new())] outliving its container
fn f697() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then drop(m);
fn f698() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then m = mat23();
fn f699() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then let moved = m; touch(&moved);
fn f700() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then m[(0, 0)].clear();
fn f701() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then m[(U0::new(), U0::new())].clear();
fn f702() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then touch(&m.map(|_, x| x));
fn f703() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then m.clamp(String::new(), String::new());
fn f704() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.rows()); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then touch(&m.rows());
fn f705() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m[(0, 0)]); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then touch(&m[(0, 0)]);
fn f706() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.clone()); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then touch(&m.clone());
fn f707() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { touch(&m.rows_iter_ref().next()); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then touch(&m.rows_iter_ref().next());
#[cfg(feature = "misuse")] fn f708() { let r = { let mut m = mat23(); &mut m[(U1::new(), U0::new())] }; touch(&r); } // ! &mut m[(U1::new(), U0::new())] outliving its container
fn f709() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then drop(m);
fn f710() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then m = mat23();
fn f711() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then let moved = m; touch(&moved);
fn f712() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then m[(0, 0)].clear();
fn f713() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then m[(U0::new(), U0::new())].clear();
fn f714() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then touch(&m.map(|_, x| x));
fn f715() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then m.clamp(String::new(), String::new());
fn f716() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.rows()); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then touch(&m.rows());
fn f717() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m[(0, 0)]); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then touch(&m[(0, 0)]);
fn f718() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.clone()); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then touch(&m.clone());
fn f719() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { touch(&m.rows_iter_ref().next()); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then touch(&m.rows_iter_ref().next());
#[cfg(feature = "misuse")] fn f720() { let r = { let mut m = mat23(); &mut m[(U0::new(), U2::new())] }; touch(&r); } // ! &mut m[(U0::new(), U2::new())] outliving its container
fn f721() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { drop(m); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then drop(m);
fn f722() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { m = mat23(); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then m = mat23();
fn f723() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { let moved = m; touch(&moved); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then let moved = m; touch(&moved);
fn f724() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { m[(0, 0)].clear(); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then m[(0, 0)].clear();
fn f725() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { m[(U0::new(), U0::new())].clear(); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then m[(U0::new(), U0::new())].clear();
fn f726() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { touch(&m.map(|_, x| x)); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then touch(&m.map(|_, x| x));
fn f727() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { m.clamp(String::new(), String::new()); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then m.clamp(String::new(), String::new());
fn f728() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { touch(&m.rows()); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then touch(&m.rows());
fn f729() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { touch(&m[(0, 0)]); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then touch(&m[(0, 0)]);
fn f730() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { touch(&m.clone()); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then touch(&m.clone());
fn f731() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { touch(&m.rows_iter_ref().next()); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then touch(&m.rows_iter_ref().next());
#[cfg(feature = "misuse")] fn f732() { let r = { let mut m = mat23(); unsafe { m.get_unchecked_mut((1, 2)) } }; touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) } outliving its container
fn f733() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { let s = &mut m[(1, 2)]; touch(&s); } touch(&r); } // ! &mut m[(1, 2)], then &mut m[(1, 2)]
fn f734() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(1, 2)], then &mut m[(U1::new(), U2::new())]
fn f735() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(1, 2)], then &mut m[(U0::new(), U0::new())]
fn f736() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(1, 2)], then &mut m[(U1::new(), U0::new())]
fn f737() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(1, 2)], then &mut m[(U0::new(), U2::new())]
fn f738() { let mut m = mat23(); let r = &mut m[(1, 2)]; #[cfg(feature = "misuse")] { let s = unsafe { m.get_unchecked_mut((1, 2)) }; touch(&s); } touch(&r); } // ! &mut m[(1, 2)], then unsafe { m.get_unchecked_mut((1, 2)) }
fn f739() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(1, 2)]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then &mut m[(1, 2)]
fn f740() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then &mut m[(U1::new(), U2::new())]
fn f741() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then &mut m[(U0::new(), U0::new())]
fn f742() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then &mut m[(U1::new(), U0::new())]
fn f743() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then &mut m[(U0::new(), U2::new())]
fn f744() { let mut m = mat23(); let r = &mut m[(U1::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = unsafe { m.get_unchecked_mut((1, 2)) }; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U2::new())], then unsafe { m.get_unchecked_mut((1, 2)) }
fn f745() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(1, 2)]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then &mut m[(1, 2)]
fn f746() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then &mut m[(U1::new(), U2::new())]
fn f747() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then &mut m[(U0::new(), U0::new())]
fn f748() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then &mut m[(U1::new(), U0::new())]
fn f749() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then &mut m[(U0::new(), U2::new())]
fn f750() { let mut m = mat23(); let r = &mut m[(U0::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = unsafe { m.get_unchecked_mut((1, 2)) }; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U0::new())], then unsafe { m.get_unchecked_mut((1, 2)) }
fn f751() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(1, 2)]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then &mut m[(1, 2)]
fn f752() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then &mut m[(U1::new(), U2::new())]
fn f753() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then &mut m[(U0::new(), U0::new())]
fn f754() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then &mut m[(U1::new(), U0::new())]
fn f755() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then &mut m[(U0::new(), U2::new())]
fn f756() { let mut m = mat23(); let r = &mut m[(U1::new(), U0::new())]; #[cfg(feature = "misuse")] { let s = unsafe { m.get_unchecked_mut((1, 2)) }; touch(&s); } touch(&r); } // ! &mut m[(U1::new(), U0::new())], then unsafe { m.get_unchecked_mut((1, 2)) }
fn f757() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(1, 2)]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then &mut m[(1, 2)]
fn f758() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then &mut m[(U1::new(), U2::new())]
fn f759() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then &mut m[(U0::new(), U0::new())]
fn f760() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U0::new())]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then &mut m[(U1::new(), U0::new())]
fn f761() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U2::new())]; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then &mut m[(U0::new(), U2::new())]
fn f762() { let mut m = mat23(); let r = &mut m[(U0::new(), U2::new())]; #[cfg(feature = "misuse")] { let s = unsafe { m.get_unchecked_mut((1, 2)) }; touch(&s); } touch(&r); } // ! &mut m[(U0::new(), U2::new())], then unsafe { m.get_unchecked_mut((1, 2)) }
fn f763() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { let s = &mut m[(1, 2)]; touch(&s); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then &mut m[(1, 2)]
fn f764() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U2::new())]; touch(&s); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then &mut m[(U1::new(), U2::new())]
fn f765() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U0::new())]; touch(&s); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then &mut m[(U0::new(), U0::new())]
fn f766() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { let s = &mut m[(U1::new(), U0::new())]; touch(&s); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then &mut m[(U1::new(), U0::new())]
fn f767() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { let s = &mut m[(U0::new(), U2::new())]; touch(&s); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then &mut m[(U0::new(), U2::new())]
fn f768() { let mut m = mat23(); let r = unsafe { m.get_unchecked_mut((1, 2)) }; #[cfg(feature = "misuse")] { let s = unsafe { m.get_unchecked_mut((1, 2)) }; touch(&s); } touch(&r); } // ! unsafe { m.get_unchecked_mut((1, 2)) }, then unsafe { m.get_unchecked_mut((1, 2)) }
fn f769() { let mut w = vec23(); let r = RowsIter::new(&w); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! RowsIter::new(&w), then drop(w);
fn f770() { let mut w = vec23(); let r = RowsIter::new(&w); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! RowsIter::new(&w), then w = vec23();
fn f771() { let mut w = vec23(); let r = RowsIter::new(&w); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! RowsIter::new(&w), then let moved = w; touch(&moved);
fn f772() { let mut w = vec23(); let r = RowsIter::new(&w); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! RowsIter::new(&w), then w[0][0].clear();
fn f773() { let mut w = vec23(); let r = RowsIter::new(&w); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! RowsIter::new(&w), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f774() { let r = { let mut w = vec23(); RowsIter::new(&w) }; touch(&r); } // ! RowsIter::new(&w) outliving its container
fn f775() { let mut w = vec23(); let r = ColsIter::new(&w); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! ColsIter::new(&w), then drop(w);
fn f776() { let mut w = vec23(); let r = ColsIter::new(&w); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! ColsIter::new(&w), then w = vec23();
fn f777() { let mut w = vec23(); let r = ColsIter::new(&w); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! ColsIter::new(&w), then let moved = w; touch(&moved);
fn f778() { let mut w = vec23(); let r = ColsIter::new(&w); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! ColsIter::new(&w), then w[0][0].clear();
fn f779() { let mut w = vec23(); let r = ColsIter::new(&w); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! ColsIter::new(&w), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f780() { let r = { let mut w = vec23(); ColsIter::new(&w) }; touch(&r); } // ! ColsIter::new(&w) outliving its container
fn f781() { let mut w = vec23(); let r = RowsIterRef::new(&w); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! RowsIterRef::new(&w), then drop(w);
fn f782() { let mut w = vec23(); let r = RowsIterRef::new(&w); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! RowsIterRef::new(&w), then w = vec23();
fn f783() { let mut w = vec23(); let r = RowsIterRef::new(&w); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! RowsIterRef::new(&w), then let moved = w; touch(&moved);
fn f784() { let mut w = vec23(); let r = RowsIterRef::new(&w); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! RowsIterRef::new(&w), then w[0][0].clear();
fn f785() { let mut w = vec23(); let r = RowsIterRef::new(&w); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! RowsIterRef::new(&w), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f786() { let r = { let mut w = vec23(); RowsIterRef::new(&w) }; touch(&r); } // ! RowsIterRef::new(&w) outliving its container
fn f787() { let mut w = vec23(); let r = ColsIterRef::new(&w); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! ColsIterRef::new(&w), then drop(w);
fn f788() { let mut w = vec23(); let r = ColsIterRef::new(&w); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! ColsIterRef::new(&w), then w = vec23();
fn f789() { let mut w = vec23(); let r = ColsIterRef::new(&w); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! ColsIterRef::new(&w), then let moved = w; touch(&moved);
fn f790() { let mut w = vec23(); let r = ColsIterRef::new(&w); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! ColsIterRef::new(&w), then w[0][0].clear();
fn f791() { let mut w = vec23(); let r = ColsIterRef::new(&w); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! ColsIterRef::new(&w), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f792() { let r = { let mut w = vec23(); ColsIterRef::new(&w) }; touch(&r); } // ! ColsIterRef::new(&w) outliving its container
fn f793() { let mut w = vec23(); let r = RowsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! RowsIterRef::new(&w).next(), then drop(w);
fn f794() { let mut w = vec23(); let r = RowsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! RowsIterRef::new(&w).next(), then w = vec23();
fn f795() { let mut w = vec23(); let r = RowsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! RowsIterRef::new(&w).next(), then let moved = w; touch(&moved);
fn f796() { let mut w = vec23(); let r = RowsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! RowsIterRef::new(&w).next(), then w[0][0].clear();
fn f797() { let mut w = vec23(); let r = RowsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! RowsIterRef::new(&w).next(), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f798() { let r = { let mut w = vec23(); RowsIterRef::new(&w).next() }; touch(&r); } // ! RowsIterRef::new(&w).next() outliving its container
fn f799() { let mut w = vec23(); let r = RowsIterRef::new(&w).next_back(); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! RowsIterRef::new(&w).next_back(), then drop(w);
fn f800() { let mut w = vec23(); let r = RowsIterRef::new(&w).next_back(); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! RowsIterRef::new(&w).next_back(), then w = vec23();
fn f801() { let mut w = vec23(); let r = RowsIterRef::new(&w).next_back(); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! RowsIterRef::new(&w).next_back(), then let moved = w; touch(&moved);
fn f802() { let mut w = vec23(); let r = RowsIterRef::new(&w).next_back(); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! RowsIterRef::new(&w).next_back(), then w[0][0].clear();
fn f803() { let mut w = vec23(); let r = RowsIterRef::new(&w).next_back(); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! RowsIterRef::new(&w).next_back(), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f804() { let r = { let mut w = vec23(); RowsIterRef::new(&w).next_back() }; touch(&r); } // ! RowsIterRef::new(&w).next_back() outliving its container
fn f805() { let mut w = vec23(); let r = ColsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! ColsIterRef::new(&w).next(), then drop(w);
fn f806() { let mut w = vec23(); let r = ColsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! ColsIterRef::new(&w).next(), then w = vec23();
fn f807() { let mut w = vec23(); let r = ColsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! ColsIterRef::new(&w).next(), then let moved = w; touch(&moved);
fn f808() { let mut w = vec23(); let r = ColsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! ColsIterRef::new(&w).next(), then w[0][0].clear();
fn f809() { let mut w = vec23(); let r = ColsIterRef::new(&w).next(); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! ColsIterRef::new(&w).next(), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f810() { let r = { let mut w = vec23(); ColsIterRef::new(&w).next() }; touch(&r); } // ! ColsIterRef::new(&w).next() outliving its container
fn f811() { let mut w = vec23(); let r = ColsIterRef::new(&w).nth(1); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! ColsIterRef::new(&w).nth(1), then drop(w);
fn f812() { let mut w = vec23(); let r = ColsIterRef::new(&w).nth(1); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! ColsIterRef::new(&w).nth(1), then w = vec23();
fn f813() { let mut w = vec23(); let r = ColsIterRef::new(&w).nth(1); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! ColsIterRef::new(&w).nth(1), then let moved = w; touch(&moved);
fn f814() { let mut w = vec23(); let r = ColsIterRef::new(&w).nth(1); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! ColsIterRef::new(&w).nth(1), then w[0][0].clear();
fn f815() { let mut w = vec23(); let r = ColsIterRef::new(&w).nth(1); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! ColsIterRef::new(&w).nth(1), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f816() { let r = { let mut w = vec23(); ColsIterRef::new(&w).nth(1) }; touch(&r); } // ! ColsIterRef::new(&w).nth(1) outliving its container
fn f817() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! ColsIterRefInner::new(&w, 1), then drop(w);
fn f818() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1), then w = vec23();
fn f819() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! ColsIterRefInner::new(&w, 1), then let moved = w; touch(&moved);
fn f820() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1), then w[0][0].clear();
fn f821() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! ColsIterRefInner::new(&w, 1), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f822() { let r = { let mut w = vec23(); ColsIterRefInner::new(&w, 1) }; touch(&r); } // ! ColsIterRefInner::new(&w, 1) outliving its container
fn f823() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next(); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next(), then drop(w);
fn f824() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next(); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next(), then w = vec23();
fn f825() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next(); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next(), then let moved = w; touch(&moved);
fn f826() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next(); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next(), then w[0][0].clear();
fn f827() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next(); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next(), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f828() { let r = { let mut w = vec23(); ColsIterRefInner::new(&w, 1).next() }; touch(&r); } // ! ColsIterRefInner::new(&w, 1).next() outliving its container
fn f829() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next_back(); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next_back(), then drop(w);
fn f830() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next_back(); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next_back(), then w = vec23();
fn f831() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next_back(); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next_back(), then let moved = w; touch(&moved);
fn f832() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next_back(); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next_back(), then w[0][0].clear();
fn f833() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).next_back(); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).next_back(), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f834() { let r = { let mut w = vec23(); ColsIterRefInner::new(&w, 1).next_back() }; touch(&r); } // ! ColsIterRefInner::new(&w, 1).next_back() outliving its container
fn f835() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).nth(1); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).nth(1), then drop(w);
fn f836() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).nth(1); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).nth(1), then w = vec23();
fn f837() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).nth(1); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).nth(1), then let moved = w; touch(&moved);
fn f838() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).nth(1); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).nth(1), then w[0][0].clear();
fn f839() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).nth(1); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).nth(1), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f840() { let r = { let mut w = vec23(); ColsIterRefInner::new(&w, 1).nth(1) }; touch(&r); } // ! ColsIterRefInner::new(&w, 1).nth(1) outliving its container
fn f841() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).last(); #[cfg(feature = "misuse")] { drop(w); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).last(), then drop(w);
fn f842() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).last(); #[cfg(feature = "misuse")] { w = vec23(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).last(), then w = vec23();
fn f843() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).last(); #[cfg(feature = "misuse")] { let moved = w; touch(&moved); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).last(), then let moved = w; touch(&moved);
fn f844() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).last(); #[cfg(feature = "misuse")] { w[0][0].clear(); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).last(), then w[0][0].clear();
fn f845() { let mut w = vec23(); let r = ColsIterRefInner::new(&w, 1).last(); #[cfg(feature = "misuse")] { touch(&w.into_iter().next()); } touch(&r); } // ! ColsIterRefInner::new(&w, 1).last(), then touch(&w.into_iter().next());
#[cfg(feature = "misuse")] fn f846() { let r = { let mut w = vec23(); ColsIterRefInner::new(&w, 1).last() }; touch(&r); } // ! ColsIterRefInner::new(&w, 1).last() outliving its container

fn send<T: Send>() {}
fn sync<T: Sync>() {}

#[cfg(feature = "share")] fn f847() { send::<Vector<Rc<u8>, U2>>() } // ! Vector<Rc<u8>, U2> is Send
#[cfg(feature = "share")] fn f848() { sync::<Vector<Rc<u8>, U2>>() } // ! Vector<Rc<u8>, U2> is Sync
#[cfg(feature = "share")] fn f849() { send::<Matrix<Rc<u8>, U1, U2>>() } // ! Matrix<Rc<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f850() { sync::<Matrix<Rc<u8>, U1, U2>>() } // ! Matrix<Rc<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f851() { send::<IntoIter<Rc<u8>, U2>>() } // ! IntoIter<Rc<u8>, U2> is Send
#[cfg(feature = "share")] fn f852() { sync::<IntoIter<Rc<u8>, U2>>() } // ! IntoIter<Rc<u8>, U2> is Sync
#[cfg(feature = "share")] fn f853() { send::<Chunks<Rc<u8>, U2, U1>>() } // ! Chunks<Rc<u8>, U2, U1> is Send
#[cfg(feature = "share")] fn f854() { sync::<Chunks<Rc<u8>, U2, U1>>() } // ! Chunks<Rc<u8>, U2, U1> is Sync
#[cfg(feature = "share")] fn f855() { send::<RowsIter<'static, Rc<u8>, U1, U2>>() } // ! RowsIter<'static, Rc<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f856() { sync::<RowsIter<'static, Rc<u8>, U1, U2>>() } // ! RowsIter<'static, Rc<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f857() { send::<ColsIter<'static, Rc<u8>, U1, U2>>() } // ! ColsIter<'static, Rc<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f858() { sync::<ColsIter<'static, Rc<u8>, U1, U2>>() } // ! ColsIter<'static, Rc<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f859() { send::<RowsIterRef<'static, Rc<u8>, U1, U2>>() } // ! RowsIterRef<'static, Rc<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f860() { sync::<RowsIterRef<'static, Rc<u8>, U1, U2>>() } // ! RowsIterRef<'static, Rc<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f861() { send::<ColsIterRef<'static, Rc<u8>, U1, U2>>() } // ! ColsIterRef<'static, Rc<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f862() { sync::<ColsIterRef<'static, Rc<u8>, U1, U2>>() } // ! ColsIterRef<'static, Rc<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f863() { send::<ColsIterRefInner<'static, Rc<u8>, U1, U2>>() } // ! ColsIterRefInner<'static, Rc<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f864() { sync::<ColsIterRefInner<'static, Rc<u8>, U1, U2>>() } // ! ColsIterRefInner<'static, Rc<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f865() { sync::<Vector<Cell<u8>, U2>>() } // ! Vector<Cell<u8>, U2> is Sync
#[cfg(feature = "share")] fn f866() { sync::<Matrix<Cell<u8>, U1, U2>>() } // ! Matrix<Cell<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f867() { sync::<IntoIter<Cell<u8>, U2>>() } // ! IntoIter<Cell<u8>, U2> is Sync
#[cfg(feature = "share")] fn f868() { sync::<Chunks<Cell<u8>, U2, U1>>() } // ! Chunks<Cell<u8>, U2, U1> is Sync
#[cfg(feature = "share")] fn f869() { send::<RowsIter<'static, Cell<u8>, U1, U2>>() } // ! RowsIter<'static, Cell<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f870() { sync::<RowsIter<'static, Cell<u8>, U1, U2>>() } // ! RowsIter<'static, Cell<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f871() { send::<ColsIter<'static, Cell<u8>, U1, U2>>() } // ! ColsIter<'static, Cell<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f872() { sync::<ColsIter<'static, Cell<u8>, U1, U2>>() } // ! ColsIter<'static, Cell<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f873() { send::<RowsIterRef<'static, Cell<u8>, U1, U2>>() } // ! RowsIterRef<'static, Cell<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f874() { sync::<RowsIterRef<'static, Cell<u8>, U1, U2>>() } // ! RowsIterRef<'static, Cell<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f875() { send::<ColsIterRef<'static, Cell<u8>, U1, U2>>() } // ! ColsIterRef<'static, Cell<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f876() { sync::<ColsIterRef<'static, Cell<u8>, U1, U2>>() } // ! ColsIterRef<'static, Cell<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f877() { send::<ColsIterRefInner<'static, Cell<u8>, U1, U2>>() } // ! ColsIterRefInner<'static, Cell<u8>, U1, U2> is Send
#[cfg(feature = "share")] fn f878() { sync::<ColsIterRefInner<'static, Cell<u8>, U1, U2>>() } // ! ColsIterRefInner<'static, Cell<u8>, U1, U2> is Sync
#[cfg(feature = "share")] fn f879() { send::<Vector<*const u8, U2>>() } // ! Vector<*const u8, U2> is Send
#[cfg(feature = "share")] fn f880() { sync::<Vector<*const u8, U2>>() } // ! Vector<*const u8, U2> is Sync
#[cfg(feature = "share")] fn f881() { send::<Matrix<*const u8, U1, U2>>() } // ! Matrix<*const u8, U1, U2> is Send
#[cfg(feature = "share")] fn f882() { sync::<Matrix<*const u8, U1, U2>>() } // ! Matrix<*const u8, U1, U2> is Sync
#[cfg(feature = "share")] fn f883() { send::<IntoIter<*const u8, U2>>() } // ! IntoIter<*const u8, U2> is Send
#[cfg(feature = "share")] fn f884() { sync::<IntoIter<*const u8, U2>>() } // ! IntoIter<*const u8, U2> is Sync
#[cfg(feature = "share")] fn f885() { send::<Chunks<*const u8, U2, U1>>() } // ! Chunks<*const u8, U2, U1> is Send
#[cfg(feature = "share")] fn f886() { sync::<Chunks<*const u8, U2, U1>>() } // ! Chunks<*const u8, U2, U1> is Sync
#[cfg(feature = "share")] fn f887() { send::<RowsIter<'static, *const u8, U1, U2>>() } // ! RowsIter<'static, *const u8, U1, U2> is Send
#[cfg(feature = "share")] fn f888() { sync::<RowsIter<'static, *const u8, U1, U2>>() } // ! RowsIter<'static, *const u8, U1, U2> is Sync
#[cfg(feature = "share")] fn f889() { send::<ColsIter<'static, *const u8, U1, U2>>() } // ! ColsIter<'static, *const u8, U1, U2> is Send
#[cfg(feature = "share")] fn f890() { sync::<ColsIter<'static, *const u8, U1, U2>>() } // ! ColsIter<'static, *const u8, U1, U2> is Sync
#[cfg(feature = "share")] fn f891() { send::<RowsIterRef<'static, *const u8, U1, U2>>() } // ! RowsIterRef<'static, *const u8, U1, U2> is Send
#[cfg(feature = "share")] fn f892() { sync::<RowsIterRef<'static, *const u8, U1, U2>>() } // ! RowsIterRef<'static, *const u8, U1, U2> is Sync
#[cfg(feature = "share")] fn f893() { send::<ColsIterRef<'static, *const u8, U1, U2>>() } // ! ColsIterRef<'static, *const u8, U1, U2> is Send
#[cfg(feature = "share")] fn f894() { sync::<ColsIterRef<'static, *const u8, U1, U2>>() } // ! ColsIterRef<'static, *const u8, U1, U2> is Sync
#[cfg(feature = "share")] fn f895() { send::<ColsIterRefInner<'static, *const u8, U1, U2>>() } // ! ColsIterRefInner<'static, *const u8, U1, U2> is Send
#[cfg(feature = "share")] fn f896() { sync::<ColsIterRefInner<'static, *const u8, U1, U2>>() } // ! ColsIterRefInner<'static, *const u8, U1, U2> is Sync

fn main() {}
