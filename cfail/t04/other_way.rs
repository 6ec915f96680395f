// expect: E0308
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
fn pair<S: Session>(_here: S, _there: S::Dual) {}
type S = SendTimed<i32, 'a', 0, true, 10, false, 'b', End>;
fn f(s: <S as Session>::Dual, r: /*BAD*/SendTimed<i32, 'a', 0, true, 10, true, 'b', End>/*GOOD*/S/*END*/) { pair(s, r) }
fn main() {}
