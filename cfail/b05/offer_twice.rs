// expect: E0382
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use mpstthree::binary::{send::send, recv::recv, close::close, cancel::cancel};
use mpstthree::meshedchannels::MeshedChannels;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC, end::RoleEnd, broadcast::RoleBroadcast};
use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use std::error::Error;
use mpstthree::binary::offer::offer_either;
use either::Either;
fn f(s: Recv<Either<End, End>, End>) { let _a = offer_either(s, |l: End| close(l), |r: End| close(r)); /*BAD*/let _b = recv(s);/*GOOD*//*END*/ }
fn main() {}
