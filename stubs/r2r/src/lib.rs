//! Stand-in for the message types r2r generates from the ROS 2 definitions
//! builtin_interfaces/Time, std_msgs/Header, sensor_msgs/PointField and sensor_msgs/PointCloud2.
pub mod builtin_interfaces {
    pub mod msg {
        #[derive(Clone, Default, Debug, PartialEq)]
        pub struct Time {
            pub sec: i32,
            pub nanosec: u32,
        }
    }
}
pub mod std_msgs {
    pub mod msg {
        #[derive(Clone, Default, Debug, PartialEq)]
        pub struct Header {
            pub stamp: crate::builtin_interfaces::msg::Time,
            pub frame_id: String,
        }
    }
}
pub mod sensor_msgs {
    pub mod msg {
        #[derive(Clone, Default, Debug, PartialEq)]
        pub struct PointField {
            pub name: String,
            pub offset: u32,
            pub datatype: u8,
            pub count: u32,
        }
        #[derive(Clone, Default, Debug, PartialEq)]
        pub struct PointCloud2 {
            pub header: crate::std_msgs::msg::Header,
            pub height: u32,
            pub width: u32,
            pub fields: Vec<PointField>,
            pub is_bigendian: bool,
            pub point_step: u32,
            pub row_step: u32,
            pub data: Vec<u8>,
            pub is_dense: bool,
        }
    }
}
