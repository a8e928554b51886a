//! Instantiations of the generic encoders and decoders of ntt-messages, so that the
//! analysis has monomorphic bodies to look at. Only type-checked, never run.
#![allow(dead_code)]
use anchor_lang::prelude::*;
use ntt_messages::{
    chain_id::ChainId,
    mode::Mode,
    ntt::{EmptyPayload, NativeTokenTransfer},
    ntt_manager::NttManagerMessage,
    transceiver::TransceiverMessage,
    transceivers::wormhole::{WormholeTransceiver, WormholeTransceiverInfo, WormholeTransceiverRegistration},
    trimmed_amount::TrimmedAmount,
};
use std::io;
use wormhole_io::{Readable, TypePrefixedPayload, Writeable};

/// an additional payload that is not declared empty
#[derive(AnchorSerialize, AnchorDeserialize, InitSpace, Clone, Debug, PartialEq, Eq)]
pub struct Extra {
    pub body: [u8; 20],
}

impl TypePrefixedPayload for Extra {
    const TYPE: Option<u8> = None;
}

impl Readable for Extra {
    const SIZE: Option<usize> = None;
    fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
        Ok(Extra { body: Readable::read(reader)? })
    }
}

impl Writeable for Extra {
    fn written_size(&self) -> usize {
        20
    }
    fn write<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
        self.body.write(writer)
    }
}

/// an additional payload that has no bytes but does not declare so
#[derive(AnchorSerialize, AnchorDeserialize, InitSpace, Clone, Debug, PartialEq, Eq)]
pub struct Nothing {}

impl TypePrefixedPayload for Nothing {
    const TYPE: Option<u8> = None;
}

impl Readable for Nothing {
    const SIZE: Option<usize> = None;
    fn read<R: io::Read>(_reader: &mut R) -> io::Result<Self> {
        Ok(Nothing {})
    }
}

impl Writeable for Nothing {
    fn written_size(&self) -> usize {
        0
    }
    fn write<W: io::Write>(&self, _writer: &mut W) -> io::Result<()> {
        Ok(())
    }
}

/// an additional payload of any length, possibly none
#[derive(AnchorSerialize, AnchorDeserialize, InitSpace, Clone, Debug, PartialEq, Eq)]
pub struct Memo {
    #[max_len(100)]
    pub body: Vec<u8>,
}

impl TypePrefixedPayload for Memo {
    const TYPE: Option<u8> = None;
}

impl Readable for Memo {
    const SIZE: Option<usize> = None;
    fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
        let mut body = vec![];
        reader.read_to_end(&mut body)?;
        Ok(Memo { body })
    }
}

impl Writeable for Memo {
    fn written_size(&self) -> usize {
        self.body.len()
    }
    fn write<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
        writer.write_all(&self.body)
    }
}

/// an additional payload that carries a type byte of its own
#[derive(AnchorSerialize, AnchorDeserialize, InitSpace, Clone, Debug, PartialEq, Eq)]
pub struct Typed {
    pub body: [u8; 20],
}

impl TypePrefixedPayload for Typed {
    const TYPE: Option<u8> = Some(7);
}

impl Readable for Typed {
    const SIZE: Option<usize> = Some(20);
    fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
        Ok(Typed { body: Readable::read(reader)? })
    }
}

impl Writeable for Typed {
    fn written_size(&self) -> usize {
        20
    }
    fn write<W: io::Write>(&self, writer: &mut W) -> io::Result<()> {
        self.body.write(writer)
    }
}

macro_rules! probe {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn read(r: &mut &[u8]) -> io::Result<$t> {
                <$t as Readable>::read(r)
            }
            pub fn write(x: &$t, w: &mut Vec<u8>) -> io::Result<()> {
                <$t as Writeable>::write(x, w)
            }
            pub fn size(x: &$t) -> usize {
                <$t as Writeable>::written_size(x)
            }
            pub fn fixed() -> Option<usize> {
                <$t as Readable>::SIZE
            }
        }
    };
}

macro_rules! probe_payload {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn read(r: &mut &[u8]) -> io::Result<$t> {
                <$t as TypePrefixedPayload>::read_payload(r)
            }
            pub fn write(x: &$t) -> Vec<u8> {
                <$t as TypePrefixedPayload>::to_vec_payload(x)
            }
        }
    };
}

macro_rules! probe_anchor {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn read(r: &mut &[u8]) -> io::Result<$t> {
                <$t as AnchorDeserialize>::deserialize_reader(r)
            }
            pub fn write(x: &$t, w: &mut Vec<u8>) -> io::Result<()> {
                <$t as AnchorSerialize>::serialize(x, w)
            }
        }
    };
}

pub type Ntt = NativeTokenTransfer<EmptyPayload>;
pub type NttX = NativeTokenTransfer<Extra>;
pub type NttN = NativeTokenTransfer<Nothing>;
pub type NttV = NativeTokenTransfer<Memo>;
pub type NttT = NativeTokenTransfer<Typed>;
pub type MsgT = TransceiverMessage<WormholeTransceiver, NttT>;
pub type MsgN = TransceiverMessage<WormholeTransceiver, NttN>;
pub type Msg = TransceiverMessage<WormholeTransceiver, Ntt>;
pub type MsgX = TransceiverMessage<WormholeTransceiver, NttX>;

probe!(chain_id, ChainId);
probe!(mode, Mode);
probe!(trimmed_amount, TrimmedAmount);
probe!(empty_payload, EmptyPayload);
probe!(transfer, Ntt);
probe!(transfer_x, NttX);
probe!(transfer_n, NttN);
probe!(transfer_v, NttV);
probe!(manager_message_n, NttManagerMessage<NttN>);
probe!(manager_message_v, NttManagerMessage<NttV>);
probe!(message_n, MsgN);
probe!(transfer_t, NttT);
probe!(manager_message_t, NttManagerMessage<NttT>);
probe!(manager_message_typed, NttManagerMessage<Typed>);
probe!(message_t, MsgT);
probe!(manager_message, NttManagerMessage<Ntt>);
probe!(manager_message_x, NttManagerMessage<NttX>);
probe!(message, Msg);
probe!(message_x, MsgX);
probe!(info, WormholeTransceiverInfo);
probe!(registration, WormholeTransceiverRegistration);
probe_payload!(transfer_payload, Ntt);
probe_payload!(manager_message_payload, NttManagerMessage<Ntt>);
probe_payload!(message_payload, Msg);
probe_payload!(message_x_payload, MsgX);
probe_payload!(info_payload, WormholeTransceiverInfo);
probe_payload!(registration_payload, WormholeTransceiverRegistration);
probe_anchor!(message_anchor, Msg);
probe_anchor!(info_anchor, WormholeTransceiverInfo);
probe_anchor!(registration_anchor, WormholeTransceiverRegistration);
