// expect: E0308
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
fn pair<S: Session>(_here: S, _there: S::Dual) {}
type S = SendTimed<i32, 'a', 0, true, 10, false, 'b', End>;
type D = /*BAD*/RecvTimed<u32, 'a', 0, true, 10, false, 'b', End>/*GOOD*/RecvTimed<i32, 'a', 0, true, 10, false, 'b', End>/*END*/;
fn f(s: S, r: D) { pair(s, r) }
fn main() {}
