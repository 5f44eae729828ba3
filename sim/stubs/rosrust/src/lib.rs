//! Stand-in for rosrust: the ROS 1 time type.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Time { pub sec: u32, pub nsec: u32 }
