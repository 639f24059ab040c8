//! Stand-in for the part of rosrust the conversions use (rosrust re-exports ros_message::Time).
#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
pub struct Time {
    pub sec: u32,
    pub nsec: u32,
}
