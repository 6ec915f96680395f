// expect: E0277
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use mpstthree::binary::{send::send, recv::recv, close::close, cancel::cancel};
use mpstthree::meshedchannels::MeshedChannels;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC, end::RoleEnd, broadcast::RoleBroadcast};
use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use std::error::Error;
fn f(s: RoleBroadcast) -> (RoleBroadcast, ()) { /*BAD*/(Clone::clone(&s), ())/*GOOD*/(s, ())/*END*/ }
fn main() {}
