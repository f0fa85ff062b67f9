//! Stands where the UDP node expects vru-session: the same, and the world learns for which identity an opening was made.
pub use vru_session::*;

pub mod handshake {
    pub use vru_session::handshake::*;

    pub mod xx {
        use rac::{generic_array::typenum::U96, Array, LineValid};
        pub use vru_session::handshake::xx::*;
        use vru_session::handshake::{xx, Identity};

        pub fn out0(seed: &Array<U96>, peer_s_pi: &Identity) -> (InitiatorsEphemeral, Message0) {
            let (state, message) = xx::out0(seed, peer_s_pi);
            if let Some(w) = vmc_std::rt::try_world() {
                w.openings.push((peer_s_pi.as_ref().to_vec(), message.clone_line().to_vec()));
            }
            (state, message)
        }
    }
}
