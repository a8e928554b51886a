//! Instantiations of the generic encoders and decoders of wormhole-governance, so that
//! the analysis has monomorphic bodies to look at. Only type-checked, never run.
#![allow(dead_code)]
use anchor_lang::prelude::*;
use std::io;
use wormhole_governance::instructions::governance::{GovernanceAction, GovernanceMessage};
use wormhole_io::{Readable, Writeable};

macro_rules! probe {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn read(r: &mut &[u8]) -> io::Result<$t> {
                <$t as Readable>::read(r)
            }
            pub fn write(x: &$t, w: &mut Vec<u8>) -> io::Result<()> {
                <$t as Writeable>::write(x, w)
            }
            pub fn size(x: &$t) -> usize {
                <$t as Writeable>::written_size(x)
            }
            pub fn fixed() -> Option<usize> {
                <$t as Readable>::SIZE
            }
        }
    };
}

probe!(action, GovernanceAction);
probe!(gov_message, GovernanceMessage);

pub mod gov_message_anchor {
    use super::*;
    pub fn read(r: &mut &[u8]) -> io::Result<GovernanceMessage> {
        <GovernanceMessage as AnchorDeserialize>::deserialize_reader(r)
    }
    pub fn write(x: &GovernanceMessage, w: &mut Vec<u8>) -> io::Result<()> {
        <GovernanceMessage as AnchorSerialize>::serialize(x, w)
    }
}
