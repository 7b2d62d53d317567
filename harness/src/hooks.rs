//! What the simulator reaches of the code's private parts. A part whose hook no longer compiles
//! is left out (tools/build.sh), and with it the checks that need it.

/// Why this property cannot be checked in this build, if so.
pub fn missing(property: &str) -> Option<&'static str> {
    let needs: &[(bool, &str)] = match property {
        "F01" | "F02" | "F03" => &[(cfg!(plusendi_sim_no_messages), "the message receiver")],
        "F04" => &[(cfg!(plusendi_sim_no_messages), "the message receiver"), (cfg!(plusendi_sim_no_codec), "the codec")],
        "A01" | "A02" | "A03" | "A04" => &[(cfg!(plusendi_sim_no_program), "the program")],
        "N02" => &[(cfg!(plusendi_sim_no_lines), "the parsers of forwarding lines")],
        "N03" => &[(cfg!(plusendi_sim_no_commands), "the modem commands")],
        _ => &[],
    };
    needs.iter().find(|(missing, _)| *missing).map(|(_, what)| *what)
}

#[cfg(not(plusendi_sim_no_messages))]
pub use plusendi::sim::messages::{receive, Received};

#[cfg(plusendi_sim_no_messages)]
mod messages {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Received {
        Incomplete(Option<usize>),
        Rejected,
        Accepted { consumed: usize, title: String, offset: u32, crc16: u16, uncompressed_size: u32, data: Vec<u8>, message: Option<Option<Vec<u8>>> },
    }
    pub fn receive(_: &[u8], _: bool) -> Received {
        unreachable!()
    }
}
#[cfg(plusendi_sim_no_messages)]
pub use messages::*;

#[cfg(not(plusendi_sim_no_lines))]
pub use plusendi::sim::lines::{forwarding, Forwarding, Parsed, Want};

#[cfg(plusendi_sim_no_lines)]
mod lines {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Forwarding {
        Proposal { kind: u8, sender: String, mbo: String, recipient: String, id: String, size: u64 },
        Winlink { id: String, uncompressed: u64, compressed: u64, bqp: Option<(String, String, String)> },
        Selection(Vec<(u8, u64)>),
        Control,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Parsed {
        Incomplete(Option<usize>),
        Rejected,
        Done { consumed: usize, what: Forwarding },
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Want {
        Proposal,
        Winlink,
        Selection(usize),
        NoMore,
        AllDone,
        EndOfProposal,
    }
    pub fn forwarding(_: Want, _: &[u8]) -> Parsed {
        unreachable!()
    }
}
#[cfg(plusendi_sim_no_lines)]
pub use lines::*;

/// The compressed form of a message; without the codec, a standard encoder's.
pub fn encode(data: &[u8]) -> Vec<u8> {
    #[cfg(not(plusendi_sim_no_codec))]
    return plusendi::sim::codec::encode(data);
    #[cfg(plusendi_sim_no_codec)]
    return crate::lzref::encode(&crate::lzref::tokenise(data, 0, &mut crate::lzref::Rng(1))).0;
}

pub const COMMANDS: bool = !cfg!(plusendi_sim_no_commands);

#[cfg(not(plusendi_sim_no_commands))]
pub use plusendi::sim::commands::send;

#[cfg(plusendi_sim_no_commands)]
pub async fn send(_: &plusendi::modem::vara::VaraTnc, _: plusendi::modem::vara::Command) -> color_eyre::Result<()> {
    unreachable!()
}
