From a84c567bfea521bae1910b607763d564a8832991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:35 +0000
Subject: [PATCH 01/35] fix: answer malformed, unknown and unsupported commands
 with an error instead of panicking

---
 src/device.rs | 48 ++++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 9e8b915..d8040e3 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -972,7 +972,7 @@ impl Device {
         }
     }
 
-    fn receive_command(&mut self, cmd: ControlPacket) -> ControlPacket {
+    fn receive_command(&mut self, cmd: ControlPacket) -> anyhow::Result<ControlPacket> {
         use AndroidPacketChild::*;
         use ControlPacketChild::*;
         use CorePacketChild::*;
@@ -983,29 +983,23 @@ impl Device {
         // Reset command. The controller responds with Device Status
         // Notification with DEVICE_STATE_ERROR otherwise.
         if !self.is_reset && !cmd.is_core_device_reset_cmd() {
-            return uci::CoreDeviceStatusNtf {
+            return Ok(uci::CoreDeviceStatusNtf {
                 device_state: DeviceState::DeviceStateError,
             }
             .try_into()
-            .unwrap();
+            .unwrap());
         }
 
-        match cmd
-            .specialize()
-            .expect("Failed to parse Control packet child")
-        {
-            CorePacket(cmd) => match cmd.specialize().expect("Failed to parse Core packet child") {
+        Ok(match cmd.specialize()? {
+            CorePacket(cmd) => match cmd.specialize()? {
                 CoreDeviceResetCmd(cmd) => self.core_device_reset(cmd).try_into().unwrap(),
                 CoreGetDeviceInfoCmd(cmd) => self.core_get_device_info(cmd).try_into().unwrap(),
                 CoreGetCapsInfoCmd(cmd) => self.core_get_caps_info(cmd).try_into().unwrap(),
                 CoreSetConfigCmd(cmd) => self.core_set_config(cmd).try_into().unwrap(),
                 CoreGetConfigCmd(cmd) => self.core_get_config(cmd).try_into().unwrap(),
-                _ => unimplemented!("Unsupported Core oid {:?}", cmd.oid),
+                _ => anyhow::bail!("Unsupported Core oid {:?}", cmd.oid),
             },
-            SessionConfigPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Session Config packet child")
-            {
+            SessionConfigPacket(cmd) => match cmd.specialize()? {
                 SessionInitCmd(cmd) => self.session_init(cmd).try_into().unwrap(),
                 SessionDeinitCmd(cmd) => self.session_deinit(cmd).try_into().unwrap(),
                 SessionGetCountCmd(cmd) => self.session_get_count(cmd).try_into().unwrap(),
@@ -1016,30 +1010,24 @@ impl Device {
                     .session_update_controller_multicast_list(cmd)
                     .try_into()
                     .unwrap(),
-                _ => unimplemented!("Unsupported Session Config oid {:?}", cmd.oid),
+                _ => anyhow::bail!("Unsupported Session Config oid {:?}", cmd.oid),
             },
-            SessionControlPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Session Control packet child")
-            {
+            SessionControlPacket(cmd) => match cmd.specialize()? {
                 SessionStartCmd(cmd) => self.session_start(cmd).try_into().unwrap(),
                 SessionStopCmd(cmd) => self.session_stop(cmd).try_into().unwrap(),
                 SessionGetRangingCountCmd(cmd) => {
                     self.session_get_ranging_count(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Session Control oid {:?}", cmd.oid),
+                _ => anyhow::bail!("Unsupported Session Control oid {:?}", cmd.oid),
             },
-            AndroidPacket(cmd) => match cmd
-                .specialize()
-                .expect("Failed to parse Android packet child")
-            {
+            AndroidPacket(cmd) => match cmd.specialize()? {
                 AndroidSetCountryCodeCmd(cmd) => {
                     self.android_set_country_code(cmd).try_into().unwrap()
                 }
                 AndroidGetPowerStatsCmd(cmd) => {
                     self.android_get_power_stats(cmd).try_into().unwrap()
                 }
-                _ => unimplemented!("Unsupported Android oid {:?}", cmd.oid),
+                _ => anyhow::bail!("Unsupported Android oid {:?}", cmd.oid),
             },
             ControlPacketChild::None
                 if matches!(
@@ -1068,7 +1056,7 @@ impl Device {
                     ],
                 }
             }
-        }
+        })
     }
 
     pub fn receive_packet(&mut self, packet: Vec<u8>) {
@@ -1082,7 +1070,10 @@ impl Device {
                 Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
             },
             MessageType::Command => {
-                match ControlPacket::decode_full(&packet) {
+                let response = ControlPacket::decode_full(&packet)
+                    .map_err(anyhow::Error::from)
+                    .and_then(|cmd| self.receive_command(cmd));
+                match response {
                     // Parsing error. Determine what error response should be
                     // returned to the host:
                     // - response and notifications are ignored, no response
@@ -1113,10 +1104,7 @@ impl Device {
                     }
 
                     // Parsing success, ignore non command packets.
-                    Ok(cmd) => {
-                        let response = self.receive_command(cmd);
-                        self.send_control(response)
-                    }
+                    Ok(response) => self.send_control(response),
                 }
             }
 
-- 
2.43.0


From 7fe656185488398aceae3b9ee07d7201e5ad5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:57 +0000
Subject: [PATCH 02/35] fix: ignore malformed data messages instead of
 panicking

---
 src/device.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index d8040e3..7a07abb 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -933,12 +933,9 @@ impl Device {
         }
     }
 
-    pub fn data_message_snd(&mut self, data: DataPacket) -> ControlPacket {
+    pub fn data_message_snd(&mut self, data: DataPacket) -> anyhow::Result<ControlPacket> {
         log::debug!("[{}] data_message_send", self.handle);
-        match data
-            .specialize()
-            .expect("failed to parse Data packet child")
-        {
+        Ok(match data.specialize()? {
             DataPacketChild::DataMessageSnd(data_msg_snd) => {
                 let session_token = data_msg_snd.session_handle;
                 if let Some(session) = self.session_mut(session_token) {
@@ -966,10 +963,8 @@ impl Device {
                 .try_into()
                 .unwrap()
             }
-            _ => {
-                unimplemented!()
-            }
-        }
+            _ => anyhow::bail!("unsupported data packet format {:?}", data.dpf),
+        })
     }
 
     fn receive_command(&mut self, cmd: ControlPacket) -> anyhow::Result<ControlPacket> {
@@ -1062,11 +1057,11 @@ impl Device {
     pub fn receive_packet(&mut self, packet: Vec<u8>) {
         let mt = parse_message_type(packet[0]);
         match mt {
-            MessageType::Data => match DataPacket::decode_full(&packet) {
-                Ok(packet) => {
-                    let notification = self.data_message_snd(packet);
-                    self.send_control(notification)
-                }
+            MessageType::Data => match DataPacket::decode_full(&packet)
+                .map_err(anyhow::Error::from)
+                .and_then(|packet| self.data_message_snd(packet))
+            {
+                Ok(notification) => self.send_control(notification),
                 Err(err) => log::error!("failed to parse incoming Data packet: {}", err),
             },
             MessageType::Command => {
-- 
2.43.0


From 398bd2ce164052c1c63ea9a9887b99a27648fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:57 +0000
Subject: [PATCH 03/35] fix: accept device information and configuration
 commands while ranging

---
 src/device.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 7a07abb..47251cc 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -235,9 +235,7 @@ impl Device {
     }
 
     fn core_get_device_info(&self, _cmd: CoreGetDeviceInfoCmd) -> CoreGetDeviceInfoRsp {
-        // TODO: Implement a fancy build time state machine instead of crash at runtime
         log::debug!("[{}] GetDeviceInfo", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady);
         CoreGetDeviceInfoRsp {
             status: uci::Status::Ok,
             uci_version: UCI_VERSION,
@@ -267,7 +265,6 @@ impl Device {
 
     pub fn core_set_config(&mut self, cmd: CoreSetConfigCmd) -> CoreSetConfigRsp {
         log::debug!("[{}] SetConfig", self.handle);
-        assert_eq!(self.state, DeviceState::DeviceStateReady); // UCI 6.3
 
         // [UCI] 6.3.1 Setting the Configuration
         // The UWBS shall respond with CORE_SET_CONFIG_RSP setting the Status
-- 
2.43.0


From 6c335a78310c3c8b89eaf7a8d56ab0a35f39dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:57 +0000
Subject: [PATCH 04/35] fix: reject configuration of unsupported session types
 instead of panicking

---
 src/device.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 47251cc..f984fb3 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -418,10 +418,14 @@ impl Device {
             };
         };
 
-        assert!(
-            session.session_type == SessionType::FiraRangingSession
-                || session.session_type == SessionType::FiraRangingAndInBandDataSession
-        );
+        if session.session_type != SessionType::FiraRangingSession
+            && session.session_type != SessionType::FiraRangingAndInBandDataSession
+        {
+            return SessionSetAppConfigRsp {
+                cfg_status: Vec::new(),
+                status: uci::Status::Rejected,
+            };
+        }
 
         if session.state == SessionState::SessionStateActive {
             const IMMUTABLE_PARAMETERS: &[AppConfigTlvType] = &[AppConfigTlvType::AoaResultReq];
-- 
2.43.0


From a714fd32ac6134267ba34d6cc2ad2f140c295b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:57 +0000
Subject: [PATCH 05/35] fix: report addresses as invalid in the unsupported mac
 address mode instead of panicking

---
 src/app_config.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/app_config.rs b/src/app_config.rs
index 40ac595..2816a84 100644
--- a/src/app_config.rs
+++ b/src/app_config.rs
@@ -199,14 +199,18 @@ impl AppConfig {
             uci::AppConfigTlvType::DeviceMacAddress => {
                 self.device_mac_address = Some(match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => MacAddress::Short(value.try_into()?),
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => {
+                        anyhow::bail!("unsupported mac address mode 1")
+                    }
                     uci::MacAddressMode::Mode2 => MacAddress::Extended(value.try_into()?),
                 })
             }
             uci::AppConfigTlvType::DstMacAddress => {
                 let mac_address_size = match self.mac_address_mode {
                     uci::MacAddressMode::Mode0 => 2,
-                    uci::MacAddressMode::Mode1 => unimplemented!(),
+                    uci::MacAddressMode::Mode1 => {
+                        anyhow::bail!("unsupported mac address mode 1")
+                    }
                     uci::MacAddressMode::Mode2 => 8,
                 };
                 if value.len() != self.number_of_controlees as usize * mac_address_size {
-- 
2.43.0


From 91c594adb1e309ad9776a8963df937a413809ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:09 +0000
Subject: [PATCH 06/35] fix: ignore pending ranging rounds of stopped sessions
 and disconnected devices

---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 560f28d..c5ae3df 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -407,8 +407,17 @@ impl Pica {
         log::debug!("[{}] Ranging event", device_handle);
         log::debug!("  session_id={}", session_id);
 
-        let device = self.get_device(device_handle).unwrap();
-        let session = device.session(session_id).unwrap();
+        // The session may have been stopped, or the device disconnected,
+        // while the command was pending.
+        let Some(device) = self.get_device(device_handle) else {
+            return;
+        };
+        let Some(session) = device.session(session_id) else {
+            return;
+        };
+        if session.session_state() != SessionState::SessionStateActive {
+            return;
+        }
 
         let mut data_transfer = Vec::new();
         let mut measurements = Vec::new();
-- 
2.43.0


From 141db5325d8fb839350eedb90a49eddd27abe9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:09 +0000
Subject: [PATCH 07/35] fix: do not panic when sending to a device whose
 connection is closing

---
 src/lib.rs | 57 +++++++++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c5ae3df..195ffa6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -478,40 +478,35 @@ impl Pica {
 
         // TODO: Data transfer should be limited in size for
         // each round of ranging
+        // Sending fails when the connection of the device is closing.
         for peer_device in data_transfer.iter() {
-            peer_device
-                .tx
-                .send(
-                    DataMessageRcv {
-                        application_data: session.data().clone().into(),
-                        data_sequence_number: 0x01,
-                        pbf: PacketBoundaryFlag::Complete,
-                        session_handle: session_id,
-                        source_address: session.app_config.device_mac_address.unwrap().into(),
-                        status: uci::Status::Ok,
-                    }
-                    .encode_to_vec()
-                    .unwrap(),
-                )
-                .unwrap();
+            let _ = peer_device.tx.send(
+                DataMessageRcv {
+                    application_data: session.data().clone().into(),
+                    data_sequence_number: 0x01,
+                    pbf: PacketBoundaryFlag::Complete,
+                    session_handle: session_id,
+                    source_address: session.app_config.device_mac_address.unwrap().into(),
+                    status: uci::Status::Ok,
+                }
+                .encode_to_vec()
+                .unwrap(),
+            );
         }
         if session.is_session_info_ntf_enabled() {
-            device
-                .tx
-                .send(
-                    // TODO: support extended address
-                    ShortMacTwoWaySessionInfoNtf {
-                        sequence_number: session.sequence_number,
-                        session_token: session_id,
-                        rcr_indicator: 0,            //TODO
-                        current_ranging_interval: 0, //TODO
-                        two_way_ranging_measurements: measurements,
-                        vendor_data: vec![],
-                    }
-                    .encode_to_vec()
-                    .unwrap(),
-                )
-                .unwrap();
+            let _ = device.tx.send(
+                // TODO: support extended address
+                ShortMacTwoWaySessionInfoNtf {
+                    sequence_number: session.sequence_number,
+                    session_token: session_id,
+                    rcr_indicator: 0,            //TODO
+                    current_ranging_interval: 0, //TODO
+                    two_way_ranging_measurements: measurements,
+                    vendor_data: vec![],
+                }
+                .encode_to_vec()
+                .unwrap(),
+            );
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From efa5561f2f99d5616ad608d1261b8657f48c095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:58 +0000
Subject: [PATCH 08/35] fix: split in-band data larger than one message instead
 of panicking

---
 src/lib.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 195ffa6..c8878df 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -479,19 +479,25 @@ impl Pica {
         // TODO: Data transfer should be limited in size for
         // each round of ranging
         // Sending fails when the connection of the device is closing.
+        // The size of the application data of one message is limited to 16 bits.
+        let (first, others) = session
+            .data()
+            .split_at(std::cmp::min(session.data().len(), u16::MAX as usize));
         for peer_device in data_transfer.iter() {
-            let _ = peer_device.tx.send(
-                DataMessageRcv {
-                    application_data: session.data().clone().into(),
-                    data_sequence_number: 0x01,
-                    pbf: PacketBoundaryFlag::Complete,
-                    session_handle: session_id,
-                    source_address: session.app_config.device_mac_address.unwrap().into(),
-                    status: uci::Status::Ok,
-                }
-                .encode_to_vec()
-                .unwrap(),
-            );
+            for application_data in std::iter::once(first).chain(others.chunks(u16::MAX as usize)) {
+                let _ = peer_device.tx.send(
+                    DataMessageRcv {
+                        application_data: application_data.to_vec(),
+                        data_sequence_number: 0x01,
+                        pbf: PacketBoundaryFlag::Complete,
+                        session_handle: session_id,
+                        source_address: session.app_config.device_mac_address.unwrap().into(),
+                        status: uci::Status::Ok,
+                    }
+                    .encode_to_vec()
+                    .unwrap(),
+                );
+            }
         }
         if session.is_session_info_ntf_enabled() {
             let _ = device.tx.send(
-- 
2.43.0


From 0960d3e93505acff15988c03ff5b0b7385f0a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:56 +0000
Subject: [PATCH 09/35] fix: report measurements of extended addresses instead
 of panicking

---
 src/lib.rs | 81 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c8878df..117ca52 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -160,26 +160,44 @@ fn make_measurement(
     mac_address: &MacAddress,
     local: RangingMeasurement,
     remote: RangingMeasurement,
+) -> ExtendedAddressTwoWayRangingMeasurement {
+    ExtendedAddressTwoWayRangingMeasurement {
+        mac_address: mac_address.into(),
+        status: uci::Status::Ok,
+        nlos: 0, // in Line Of Sight
+        distance: local.range,
+        aoa_azimuth: local.azimuth as u16,
+        aoa_azimuth_fom: 100, // Yup, pretty sure about this
+        aoa_elevation: local.elevation as u16,
+        aoa_elevation_fom: 100, // Yup, pretty sure about this
+        aoa_destination_azimuth: remote.azimuth as u16,
+        aoa_destination_azimuth_fom: 100,
+        aoa_destination_elevation: remote.elevation as u16,
+        aoa_destination_elevation_fom: 100,
+        slot_index: 0,
+        rssi: u8::MAX,
+    }
+}
+
+/// Convert a measurement to the short address format.
+fn make_short_measurement(
+    measurement: ExtendedAddressTwoWayRangingMeasurement,
 ) -> ShortAddressTwoWayRangingMeasurement {
-    if let MacAddress::Short(address) = mac_address {
-        ShortAddressTwoWayRangingMeasurement {
-            mac_address: u16::from_le_bytes(*address),
-            status: uci::Status::Ok,
-            nlos: 0, // in Line Of Sight
-            distance: local.range,
-            aoa_azimuth: local.azimuth as u16,
-            aoa_azimuth_fom: 100, // Yup, pretty sure about this
-            aoa_elevation: local.elevation as u16,
-            aoa_elevation_fom: 100, // Yup, pretty sure about this
-            aoa_destination_azimuth: remote.azimuth as u16,
-            aoa_destination_azimuth_fom: 100,
-            aoa_destination_elevation: remote.elevation as u16,
-            aoa_destination_elevation_fom: 100,
-            slot_index: 0,
-            rssi: u8::MAX,
-        }
-    } else {
-        panic!("Extended address is not supported.")
+    ShortAddressTwoWayRangingMeasurement {
+        mac_address: measurement.mac_address as u16,
+        status: measurement.status,
+        nlos: measurement.nlos,
+        distance: measurement.distance,
+        aoa_azimuth: measurement.aoa_azimuth,
+        aoa_azimuth_fom: measurement.aoa_azimuth_fom,
+        aoa_elevation: measurement.aoa_elevation,
+        aoa_elevation_fom: measurement.aoa_elevation_fom,
+        aoa_destination_azimuth: measurement.aoa_destination_azimuth,
+        aoa_destination_azimuth_fom: measurement.aoa_destination_azimuth_fom,
+        aoa_destination_elevation: measurement.aoa_destination_elevation,
+        aoa_destination_elevation_fom: measurement.aoa_destination_elevation_fom,
+        slot_index: measurement.slot_index,
+        rssi: measurement.rssi,
     }
 }
 
@@ -421,6 +439,7 @@ impl Pica {
 
         let mut data_transfer = Vec::new();
         let mut measurements = Vec::new();
+        let mut extended_address = false;
 
         // Look for compatible anchors.
         for mac_address in session.get_dst_mac_address() {
@@ -437,6 +456,7 @@ impl Pica {
                 else {
                     continue;
                 };
+                extended_address |= matches!(mac_address, MacAddress::Extended(_));
                 measurements.push(make_measurement(mac_address, local, remote));
             }
         }
@@ -466,6 +486,7 @@ impl Pica {
                 else {
                     continue;
                 };
+                extended_address |= matches!(peer_mac_address, MacAddress::Extended(_));
                 measurements.push(make_measurement(&peer_mac_address, local, remote));
             }
 
@@ -500,9 +521,8 @@ impl Pica {
             }
         }
         if session.is_session_info_ntf_enabled() {
-            let _ = device.tx.send(
-                // TODO: support extended address
-                ShortMacTwoWaySessionInfoNtf {
+            let packet = if extended_address {
+                ExtendedMacTwoWaySessionInfoNtf {
                     sequence_number: session.sequence_number,
                     session_token: session_id,
                     rcr_indicator: 0,            //TODO
@@ -511,8 +531,21 @@ impl Pica {
                     vendor_data: vec![],
                 }
                 .encode_to_vec()
-                .unwrap(),
-            );
+            } else {
+                ShortMacTwoWaySessionInfoNtf {
+                    sequence_number: session.sequence_number,
+                    session_token: session_id,
+                    rcr_indicator: 0,            //TODO
+                    current_ranging_interval: 0, //TODO
+                    two_way_ranging_measurements: measurements
+                        .into_iter()
+                        .map(make_short_measurement)
+                        .collect(),
+                    vendor_data: vec![],
+                }
+                .encode_to_vec()
+            };
+            let _ = device.tx.send(packet.unwrap());
 
             let device = self.get_device_mut(device_handle).unwrap();
             let session = device.session_mut(session_id).unwrap();
-- 
2.43.0


From 0dc5b6673f1bf08a609fe537e7bbbe0fe51e3006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:56 +0000
Subject: [PATCH 10/35] fix: keep the existing session when a session is
 initialized twice

---
 src/device.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index f984fb3..163c481 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -355,18 +355,16 @@ impl Device {
 
         let status = if self.sessions.len() >= MAX_SESSION {
             uci::Status::ErrorMaxSessionsExceeded
+        } else if self.sessions.contains_key(&session_id) {
+            uci::Status::ErrorSessionDuplicate
         } else {
-            match self.sessions.insert(
+            self.sessions.insert(
                 session_id,
                 Session::new(session_id, session_type, self.handle, self.tx.clone()),
-            ) {
-                Some(_) => uci::Status::ErrorSessionDuplicate,
-                None => {
-                    // Should not fail
-                    self.session_mut(session_id).unwrap().init();
-                    uci::Status::Ok
-                }
-            }
+            );
+            // Should not fail
+            self.session_mut(session_id).unwrap().init();
+            uci::Status::Ok
         };
 
         SessionInitRsp { status }
-- 
2.43.0


From a5179cd493b5888e1bece7e19a1802349f2caffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:56 +0000
Subject: [PATCH 11/35] fix: stop ranging when the multicast list of the
 session becomes empty

---
 src/device.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 163c481..2213293 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -784,10 +784,18 @@ impl Device {
         // SESSION_STATE_IDLE by sending the SESSION_STATUS_NTF with Reason Code
         // set to ERROR_INVALID_NUM_OF_CONTROLEES.
         if session.app_config.dst_mac_address.is_empty() {
+            let was_active = session.state == SessionState::SessionStateActive;
+            session.stop_ranging_task();
             session.set_state(
                 SessionState::SessionStateIdle,
                 ReasonCode::ErrorInvalidNumOfControlees,
-            )
+            );
+            if was_active {
+                self.n_active_sessions -= 1;
+                if self.n_active_sessions == 0 {
+                    self.set_state(DeviceState::DeviceStateReady);
+                }
+            }
         }
         SessionUpdateControllerMulticastListRsp {
             status,
-- 
2.43.0


From b44017f6a1994902bbfe9451a73241b31bcbc686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:56 +0000
Subject: [PATCH 12/35] fix: do not extend a multicast list that was configured
 over the limit

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 2213293..7fb5b2a 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -687,7 +687,7 @@ impl Device {
                         });
                     } else {
                         if !dst_addresses.contains(&controlee.short_address) {
-                            if dst_addresses.len() == MAX_NUMBER_OF_CONTROLEES {
+                            if dst_addresses.len() >= MAX_NUMBER_OF_CONTROLEES {
                                 status = uci::Status::ErrorMulticastListFull;
                                 update_status = MulticastUpdateStatus::ErrorMulticastListFull;
                             } else {
-- 
2.43.0


From fe6986f4b24ab6eca6c3408f8bfeef42548e47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:56 +0000
Subject: [PATCH 13/35] fix: do not range in a busy loop when the ranging
 duration is zero

---
 src/device.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 7fb5b2a..cecaa72 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -822,8 +822,9 @@ impl Device {
 
         assert!(session.ranging_task.is_none());
 
+        // The interval must not be null, to let other tasks run.
         let ranging_interval =
-            time::Duration::from_millis(session.app_config.ranging_duration as u64);
+            time::Duration::from_millis(session.app_config.ranging_duration.max(1) as u64);
 
         let tx = self.pica_tx.clone();
         let handle = self.handle;
-- 
2.43.0


From f9c63e7568121bb2928a5ea299ab5210bff6581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:56 +0000
Subject: [PATCH 14/35] fix: return the actual device state from the device
 configuration

---
 src/device.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index cecaa72..6b3016f 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -79,7 +79,6 @@ pub const DEFAULT_CAPS_INFO: &[(CapTlvType, &[u8])] = &[
 
 /// [UCI] 8.2 Device Configuration Parameters
 pub struct DeviceConfig {
-    device_state: DeviceState,
     // This config is used to enable/disable the low power mode.
     //   0x00 = Disable low power mode
     //   0x01 = Enable low power mode (default)
@@ -92,7 +91,6 @@ pub struct DeviceConfig {
 impl Default for DeviceConfig {
     fn default() -> Self {
         DeviceConfig {
-            device_state: DeviceState::DeviceStateError,
             low_power_mode: true,
         }
     }
@@ -320,7 +318,7 @@ impl Device {
             match id {
                 ConfigParameterId::DeviceState => valid_parameters.push(ConfigParameter {
                     id,
-                    value: vec![self.config.device_state.into()],
+                    value: vec![self.state.into()],
                 }),
                 ConfigParameterId::LowPowerMode => valid_parameters.push(ConfigParameter {
                     id,
-- 
2.43.0


From 85a59f2711a83e8fb78be27cfaa4482c8d968aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:42 +0000
Subject: [PATCH 15/35] fix: send notifications in order, after the response of
 the command which caused them

---
 src/device.rs  | 68 +++++++++++++++++++++++++-------------------------
 src/lib.rs     |  2 ++
 src/session.rs | 33 ++++++++++--------------
 3 files changed, 49 insertions(+), 54 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 6b3016f..7978275 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -17,7 +17,6 @@ use crate::MacAddress;
 use crate::PicaCommand;
 
 use std::collections::HashMap;
-use std::time::Duration;
 
 use pdl_runtime::Packet;
 use tokio::sync::mpsc;
@@ -109,6 +108,10 @@ pub struct Device {
     state: DeviceState,
     sessions: HashMap<u32, Session>,
     pub tx: mpsc::UnboundedSender<UciPacket>,
+    /// Queue of pending notifications, sent in order after the response to the
+    /// command which caused them.
+    ntf_tx: mpsc::UnboundedSender<UciPacket>,
+    ntf_rx: mpsc::UnboundedReceiver<UciPacket>,
     pica_tx: mpsc::Sender<PicaCommand>,
     country_code: [u8; 2],
     pub n_active_sessions: usize,
@@ -121,6 +124,7 @@ impl Device {
         tx: mpsc::UnboundedSender<UciPacket>,
         pica_tx: mpsc::Sender<PicaCommand>,
     ) -> Self {
+        let (ntf_tx, ntf_rx) = mpsc::unbounded_channel();
         Device {
             handle,
             mac_address,
@@ -129,6 +133,8 @@ impl Device {
             state: DeviceState::DeviceStateError, // Will be overwitten
             sessions: Default::default(),
             tx,
+            ntf_tx,
+            ntf_rx,
             pica_tx,
             country_code: Default::default(),
             n_active_sessions: 0,
@@ -143,16 +149,18 @@ impl Device {
 
         // Send status notification
         self.state = device_state;
-        let tx = self.tx.clone();
-        tokio::spawn(async move {
-            time::sleep(Duration::from_millis(5)).await;
-            tx.send(
-                CoreDeviceStatusNtf { device_state }
-                    .encode_to_vec()
-                    .unwrap(),
-            )
-            .unwrap()
-        });
+        let _ = self.ntf_tx.send(
+            CoreDeviceStatusNtf { device_state }
+                .encode_to_vec()
+                .unwrap(),
+        );
+    }
+
+    /// Send the pending notifications to the Host.
+    pub fn flush_notifications(&mut self) {
+        while let Ok(packet) = self.ntf_rx.try_recv() {
+            self.send_raw_control(packet)
+        }
     }
 
     pub fn init(&mut self) {
@@ -218,12 +226,11 @@ impl Device {
         log::debug!("[{}] DeviceReset", self.handle);
         log::debug!("  reset_config={:?}", reset_config);
 
-        *self = Device::new(
-            self.handle,
-            self.mac_address,
-            self.tx.clone(),
-            self.pica_tx.clone(),
-        );
+        self.sessions.clear();
+        self.n_active_sessions = 0;
+        self.config = Default::default();
+        self.country_code = Default::default();
+        self.state = DeviceState::DeviceStateError; // Will be overwitten
         self.is_reset = true;
         self.init();
 
@@ -358,7 +365,7 @@ impl Device {
         } else {
             self.sessions.insert(
                 session_id,
-                Session::new(session_id, session_type, self.handle, self.tx.clone()),
+                Session::new(session_id, session_type, self.handle, self.ntf_tx.clone()),
             );
             // Should not fail
             self.session_mut(session_id).unwrap().init();
@@ -757,22 +764,14 @@ impl Device {
                 // corresponding Controlee status shall be set to STATUS_OK_MULTICAST_LIST_UPDATE
                 // in the Status List of SESSION_UPDATE_CONTROLLER_MULTICAST_LIST_NTF.
                 if session.state == SessionState::SessionStateActive {
-                    let tx = self.tx.clone();
-                    tokio::spawn(async move {
-                        // Sleep for 5ms to make sure the notification is not being
-                        // sent before the response.
-                        // TODO(#84) remove the sleep.
-                        time::sleep(Duration::from_millis(5)).await;
-                        tx.send(
-                            SessionUpdateControllerMulticastListNtf {
-                                controlee_status: controlee_status_ntf,
-                                session_token: session_handle,
-                            }
-                            .encode_to_vec()
-                            .unwrap(),
-                        )
-                        .unwrap()
-                    });
+                    let _ = self.ntf_tx.send(
+                        SessionUpdateControllerMulticastListNtf {
+                            controlee_status: controlee_status_ntf,
+                            session_token: session_handle,
+                        }
+                        .encode_to_vec()
+                        .unwrap(),
+                    );
                 }
             }
         }
@@ -1113,6 +1112,7 @@ impl Device {
             // by the controller.
             _ => log::warn!("received unexpected packet of MT {:?}", mt),
         }
+        self.flush_notifications();
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 117ca52..02a88ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -375,6 +375,7 @@ impl Pica {
         let mac_address = MacAddress::Short((handle as u16).to_be_bytes());
         let mut device = Device::new(handle, mac_address, packet_tx, self.command_tx.clone());
         device.init();
+        device.flush_notifications();
 
         self.send_event(PicaEvent::Connected {
             handle,
@@ -622,6 +623,7 @@ impl Pica {
                 if device.n_active_sessions == 0 {
                     device.set_state(DeviceState::DeviceStateReady);
                 }
+                device.flush_notifications();
             } else {
                 log::warn!("stop_controlee_ranging: session is not active !");
             }
diff --git a/src/session.rs b/src/session.rs
index 656ad99..474c0f0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -20,10 +20,8 @@ use crate::packets::uci::{self, *};
 use crate::{AppConfig, MacAddress};
 use bytes::BytesMut;
 use pdl_runtime::Packet;
-use std::time::Duration;
 use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
-use tokio::time;
 
 use super::UciPacket;
 
@@ -39,7 +37,8 @@ pub struct Session {
     pub sequence_number: u32,
     pub app_config: AppConfig,
     pub ranging_task: Option<JoinHandle<()>>,
-    tx: mpsc::UnboundedSender<UciPacket>,
+    /// Queue of pending notifications.
+    ntf_tx: mpsc::UnboundedSender<UciPacket>,
 }
 
 impl Session {
@@ -47,7 +46,7 @@ impl Session {
         id: u32,
         session_type: SessionType,
         device_handle: usize,
-        tx: mpsc::UnboundedSender<UciPacket>,
+        ntf_tx: mpsc::UnboundedSender<UciPacket>,
     ) -> Self {
         Self {
             state: SessionState::SessionStateDeinit,
@@ -58,7 +57,7 @@ impl Session {
             sequence_number: 0,
             app_config: AppConfig::default(),
             ranging_task: None,
-            tx,
+            ntf_tx,
         }
     }
 
@@ -70,21 +69,15 @@ impl Session {
 
         // Send status notification
         self.state = session_state;
-        let tx = self.tx.clone();
-        let session_id = self.id;
-        tokio::spawn(async move {
-            time::sleep(Duration::from_millis(1)).await;
-            tx.send(
-                SessionStatusNtf {
-                    session_token: session_id,
-                    session_state,
-                    reason_code: reason_code.into(),
-                }
-                .encode_to_vec()
-                .unwrap(),
-            )
-            .unwrap()
-        });
+        let _ = self.ntf_tx.send(
+            SessionStatusNtf {
+                session_token: self.id,
+                session_state,
+                reason_code: reason_code.into(),
+            }
+            .encode_to_vec()
+            .unwrap(),
+        );
     }
 
     pub fn get_dst_mac_address(&self) -> &[MacAddress] {
-- 
2.43.0


From be52af787702866770416dcec22eb51d70851458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:37 +0000
Subject: [PATCH 16/35] fix: do not drop the task of a connection when its
 trace file cannot be created

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 02a88ff..129d72d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -391,7 +391,9 @@ impl Pica {
             let pcapng_file = if let Some(dir) = pcapng_dir {
                 let full_path = dir.join(format!("device-{}.pcapng", handle));
                 log::debug!("Recording pcapng to file {}", full_path.as_path().display());
-                Some(pcapng::File::create(full_path).unwrap())
+                pcapng::File::create(full_path)
+                    .map_err(|err| log::error!("failed to create the pcapng file: {}", err))
+                    .ok()
             } else {
                 None
             };
-- 
2.43.0


From 3cde3144b778e9f32330e306e8deb6f25aab1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:37 +0000
Subject: [PATCH 17/35] fix: write trace records completely when the system
 writes them partially

---
 src/pcapng.rs | 48 +++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/pcapng.rs b/src/pcapng.rs
index 9c1da7e..678e508 100644
--- a/src/pcapng.rs
+++ b/src/pcapng.rs
@@ -12,8 +12,6 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-#![allow(clippy::unused_io_amount)]
-
 use std::io::Write;
 use std::path::Path;
 use std::time::Instant;
@@ -33,22 +31,22 @@ impl File {
         let mut file = std::fs::File::create(path)?;
 
         // PCAPng files must start with a Section Header Block.
-        file.write(&u32::to_le_bytes(0x0A0D0D0A))?; // Block Type
-        file.write(&u32::to_le_bytes(28))?; // Block Total Length
-        file.write(&u32::to_le_bytes(0x1A2B3C4D))?; // Byte-Order Magic
-        file.write(&u16::to_le_bytes(1))?; // Major Version
-        file.write(&u16::to_le_bytes(0))?; // Minor Version
-        file.write(&u64::to_le_bytes(0xFFFFFFFFFFFFFFFF))?; // Section Length (not specified)
-        file.write(&u32::to_le_bytes(28))?; // Block Total Length
+        file.write_all(&u32::to_le_bytes(0x0A0D0D0A))?; // Block Type
+        file.write_all(&u32::to_le_bytes(28))?; // Block Total Length
+        file.write_all(&u32::to_le_bytes(0x1A2B3C4D))?; // Byte-Order Magic
+        file.write_all(&u16::to_le_bytes(1))?; // Major Version
+        file.write_all(&u16::to_le_bytes(0))?; // Minor Version
+        file.write_all(&u64::to_le_bytes(0xFFFFFFFFFFFFFFFF))?; // Section Length (not specified)
+        file.write_all(&u32::to_le_bytes(28))?; // Block Total Length
 
         // Write the Interface Description Block used for all
         // UCI records.
-        file.write(&u32::to_le_bytes(0x00000001))?; // Block Type
-        file.write(&u32::to_le_bytes(20))?; // Block Total Length
-        file.write(&u16::to_le_bytes(293))?; // LinkType
-        file.write(&u16::to_le_bytes(0))?; // Reserved
-        file.write(&u32::to_le_bytes(0))?; // SnapLen (no limit)
-        file.write(&u32::to_le_bytes(20))?; // Block Total Length
+        file.write_all(&u32::to_le_bytes(0x00000001))?; // Block Type
+        file.write_all(&u32::to_le_bytes(20))?; // Block Total Length
+        file.write_all(&u16::to_le_bytes(293))?; // LinkType
+        file.write_all(&u16::to_le_bytes(0))?; // Reserved
+        file.write_all(&u32::to_le_bytes(0))?; // SnapLen (no limit)
+        file.write_all(&u32::to_le_bytes(20))?; // Block Total Length
 
         Ok(File {
             file: std::sync::Mutex::new(file),
@@ -63,16 +61,16 @@ impl File {
         let mut file = self.file.lock().unwrap();
 
         // Wrap the packet inside an Enhanced Packet Block.
-        file.write(&u32::to_le_bytes(0x00000006))?; // Block Type
-        file.write(&u32::to_le_bytes(block_total_length))?;
-        file.write(&u32::to_le_bytes(0))?; // Interface ID
-        file.write(&u32::to_le_bytes((timestamp >> 32) as u32))?; // Timestamp (High)
-        file.write(&u32::to_le_bytes(timestamp as u32))?; // Timestamp (Low)
-        file.write(&u32::to_le_bytes(packet.len() as u32))?; // Captured Packet Length
-        file.write(&u32::to_le_bytes(packet.len() as u32))?; // Original Packet Length
-        file.write(packet)?;
-        file.write(&vec![0; packet_data_padding])?;
-        file.write(&u32::to_le_bytes(block_total_length))?; // Block Total Length
+        file.write_all(&u32::to_le_bytes(0x00000006))?; // Block Type
+        file.write_all(&u32::to_le_bytes(block_total_length))?;
+        file.write_all(&u32::to_le_bytes(0))?; // Interface ID
+        file.write_all(&u32::to_le_bytes((timestamp >> 32) as u32))?; // Timestamp (High)
+        file.write_all(&u32::to_le_bytes(timestamp as u32))?; // Timestamp (Low)
+        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Captured Packet Length
+        file.write_all(&u32::to_le_bytes(packet.len() as u32))?; // Original Packet Length
+        file.write_all(packet)?;
+        file.write_all(&vec![0; packet_data_padding])?;
+        file.write_all(&u32::to_le_bytes(block_total_length))?; // Block Total Length
         Ok(())
     }
 }
-- 
2.43.0


From ea044e5c79bb79470e475ec28134bb120e064489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:37 +0000
Subject: [PATCH 18/35] fix: do not panic when no client is subscribed to the
 server events

---
 src/bin/http-server/main.rs | 105 +++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 57 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index e248040..aaee757 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -123,6 +123,12 @@ impl Context {
         }
     }
 
+    fn send_event(&self, event: Event) {
+        // An error here means that we have
+        // no subscribers, so ignore it
+        let _ = self.events.send(event);
+    }
+
     async fn handle_connection_events(
         self,
         mut events: broadcast::Receiver<PicaEvent>,
@@ -142,13 +148,11 @@ impl Context {
                             position: Default::default(),
                         },
                     );
-                    self.events
-                        .send(Event::DeviceAdded {
-                            category: Category::Uci,
-                            mac_address,
-                            position: Default::default(),
-                        })
-                        .unwrap();
+                    self.send_event(Event::DeviceAdded {
+                        category: Category::Uci,
+                        mac_address,
+                        position: Default::default(),
+                    });
                 }
                 Ok(PicaEvent::Disconnected {
                     mac_address,
@@ -156,12 +160,10 @@ impl Context {
                 }) => {
                     let mut devices = self.devices.lock().unwrap();
                     devices.remove(&handle);
-                    self.events
-                        .send(Event::DeviceRemoved {
-                            category: Category::Uci,
-                            mac_address,
-                        })
-                        .unwrap();
+                    self.send_event(Event::DeviceRemoved {
+                        category: Category::Uci,
+                        mac_address,
+                    });
                 }
                 Err(err) => anyhow::bail!(err),
             }
@@ -204,13 +206,11 @@ impl Context {
                 .unwrap();
         };
 
-        self.events
-            .send(Event::DeviceUpdated {
-                category: device.category,
-                mac_address,
-                position,
-            })
-            .unwrap();
+        self.send_event(Event::DeviceUpdated {
+            category: device.category,
+            mac_address,
+            position,
+        });
 
         for other in devices.values() {
             if other.mac_address != device.mac_address {
@@ -223,30 +223,25 @@ impl Context {
 
                 assert!(local.0 == remote.0);
 
-                self.events
-                    .send(Event::NeighborUpdated {
-                        source_category: device.category,
-                        source_mac_address: device.mac_address,
-                        destination_category: other.category,
-                        destination_mac_address: other.mac_address,
-                        distance: local.0,
-                        azimuth: local.1,
-                        elevation: local.2,
-                    })
-                    .unwrap();
-
-                let _ = self
-                    .events
-                    .send(Event::NeighborUpdated {
-                        source_category: other.category,
-                        source_mac_address: other.mac_address,
-                        destination_category: device.category,
-                        destination_mac_address: device.mac_address,
-                        distance: remote.0,
-                        azimuth: remote.1,
-                        elevation: remote.2,
-                    })
-                    .unwrap();
+                self.send_event(Event::NeighborUpdated {
+                    source_category: device.category,
+                    source_mac_address: device.mac_address,
+                    destination_category: other.category,
+                    destination_mac_address: other.mac_address,
+                    distance: local.0,
+                    azimuth: local.1,
+                    elevation: local.2,
+                });
+
+                self.send_event(Event::NeighborUpdated {
+                    source_category: other.category,
+                    source_mac_address: other.mac_address,
+                    destination_category: device.category,
+                    destination_mac_address: device.mac_address,
+                    distance: remote.0,
+                    azimuth: remote.1,
+                    elevation: remote.2,
+                });
             }
         }
 
@@ -281,13 +276,11 @@ impl Context {
                         category: Category::Anchor,
                     },
                 );
-                self.events
-                    .send(Event::DeviceAdded {
-                        category: Category::Anchor,
-                        mac_address,
-                        position,
-                    })
-                    .unwrap();
+                self.send_event(Event::DeviceAdded {
+                    category: Category::Anchor,
+                    mac_address,
+                    position,
+                });
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
@@ -315,12 +308,10 @@ impl Context {
             Ok(Ok(handle)) => {
                 let mut devices = self.devices.lock().unwrap();
                 devices.remove(&handle);
-                self.events
-                    .send(Event::DeviceRemoved {
-                        category: Category::Anchor,
-                        mac_address,
-                    })
-                    .unwrap();
+                self.send_event(Event::DeviceRemoved {
+                    category: Category::Anchor,
+                    mac_address,
+                });
                 HttpStatusCode::OK
             }
             Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => HttpStatusCode::CONFLICT,
-- 
2.43.0


From ca9a36a47683061e8a4759e13423f590b0241999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 19/35] fix: do not exit the server when many devices connect
 at once

---
 src/bin/http-server/main.rs | 3 +++
 src/lib.rs                  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index aaee757..db2d1a2 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -165,6 +165,9 @@ impl Context {
                         mac_address,
                     });
                 }
+                Err(broadcast::error::RecvError::Lagged(count)) => {
+                    log::error!("missed {} connection events", count)
+                }
                 Err(err) => anyhow::bail!(err),
             }
         }
diff --git a/src/lib.rs b/src/lib.rs
index 129d72d..63a02a3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -204,7 +204,7 @@ fn make_short_measurement(
 impl Pica {
     pub fn new(ranging_estimator: Box<dyn RangingEstimator>, pcapng_dir: Option<PathBuf>) -> Self {
         let (command_tx, command_rx) = mpsc::channel(MAX_SESSION * MAX_DEVICE);
-        let (event_tx, _) = broadcast::channel(16);
+        let (event_tx, _) = broadcast::channel(1024);
         Pica {
             devices: HashMap::new(),
             anchors: HashMap::new(),
-- 
2.43.0


From 5d00b7b830ecf3483a835a8ec0f803b6820cf89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 20/35] fix: keep listening when a connection cannot be
 accepted

---
 src/bin/http-server/main.rs | 12 +++++++++++-
 src/bin/main.rs             | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index db2d1a2..b816ea0 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -24,6 +24,7 @@ use std::net::{Ipv4Addr, SocketAddrV4};
 use std::path::PathBuf;
 use std::sync::Arc;
 use std::sync::Mutex;
+use std::time::Duration;
 use tokio::net::TcpListener;
 use tokio::sync::{broadcast, mpsc, oneshot};
 use tokio::try_join;
@@ -495,7 +496,16 @@ async fn listen(tx: mpsc::Sender<PicaCommand>, uci_port: u16) -> Result<()> {
     log::info!("Pica: Listening on: {}", uci_port);
 
     loop {
-        let (socket, addr) = uci_listener.accept().await?;
+        // Accepting may fail temporarily, e.g. when the connection was already
+        // aborted or when the process is out of file descriptors.
+        let (socket, addr) = match uci_listener.accept().await {
+            Ok(accepted) => accepted,
+            Err(err) => {
+                log::error!("failed to accept connection: {}", err);
+                tokio::time::sleep(Duration::from_millis(100)).await;
+                continue;
+            }
+        };
         log::info!("Uwb host addr: {}", addr);
 
         let (read_half, write_half) = socket.into_split();
diff --git a/src/bin/main.rs b/src/bin/main.rs
index 96ffe6c..cade003 100644
--- a/src/bin/main.rs
+++ b/src/bin/main.rs
@@ -18,6 +18,7 @@ use env_logger::Env;
 use pica::{Pica, PicaCommand};
 use std::net::{Ipv4Addr, SocketAddrV4};
 use std::path::PathBuf;
+use std::time::Duration;
 use tokio::net::TcpListener;
 use tokio::sync::mpsc;
 use tokio::try_join;
@@ -30,7 +31,16 @@ async fn accept_incoming(cmd_tx: mpsc::Sender<PicaCommand>, uci_port: u16) -> Re
     log::info!("Pica: Listening on: {}", uci_port);
 
     loop {
-        let (socket, addr) = uci_listener.accept().await?;
+        // Accepting may fail temporarily, e.g. when the connection was already
+        // aborted or when the process is out of file descriptors.
+        let (socket, addr) = match uci_listener.accept().await {
+            Ok(accepted) => accepted,
+            Err(err) => {
+                log::error!("failed to accept connection: {}", err);
+                tokio::time::sleep(Duration::from_millis(100)).await;
+                continue;
+            }
+        };
         log::info!("Uwb host addr: {}", addr);
 
         let (read_half, write_half) = socket.into_split();
-- 
2.43.0


From b24e1104c8bb28224bba6603d5f2c220a55b86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 21/35] fix: do not give the mac address of an anchor to a new
 device

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63a02a3..f765017 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -367,8 +367,14 @@ impl Pica {
         let disconnect_tx = self.command_tx.clone();
         let pcapng_dir = self.pcapng_dir.clone();
 
-        let handle = self.counter;
-        self.counter += 1;
+        // Skip the handles whose mac address is already used, e.g. by an anchor.
+        let handle = (self.counter..=self.counter + u16::MAX as usize)
+            .find(|handle| {
+                let mac_address = MacAddress::Short((*handle as u16).to_be_bytes());
+                self.get_category(&mac_address).is_none()
+            })
+            .ok_or(anyhow::anyhow!("no available device mac address"))?;
+        self.counter = handle + 1;
 
         log::debug!("[{}] Connecting device", handle);
 
-- 
2.43.0


From a5e705b3aaf1200e6ca8d82b72b844ca059ae3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 22/35] fix: update the state of the server in the order of
 anchor creations and destructions

---
 src/bin/http-server/main.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index b816ea0..dd1f50d 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -112,6 +112,8 @@ pub enum Event {
 #[derive(Clone)]
 struct Context {
     devices: Arc<Mutex<HashMap<pica::Handle, DeviceInformation>>>,
+    /// Serialize the creation and destruction of anchors.
+    anchors: Arc<tokio::sync::Mutex<()>>,
     events: broadcast::Sender<Event>,
 }
 
@@ -120,6 +122,7 @@ impl Context {
         let (events, _) = broadcast::channel(1024);
         Context {
             devices: Arc::new(Mutex::new(HashMap::new())),
+            anchors: Default::default(),
             events,
         }
     }
@@ -263,6 +266,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("create-anchor({}, {})", mac_address, position);
 
+        let _guard = self.anchors.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::CreateAnchor(mac_address, rsp_tx))
@@ -302,6 +306,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("destroy-anchor({})", mac_address);
 
+        let _guard = self.anchors.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::DestroyAnchor(mac_address, rsp_tx))
@@ -449,15 +454,23 @@ async fn http_request(
         ["set-position", mac_address] => {
             context.http_set_position(mac_address!(mac_address), position!(body))
         }
+        // The creation and destruction of anchors must be completed even when
+        // the client disconnects, i.e. when the future of the request is dropped.
         ["create-anchor", mac_address] => {
-            context
-                .http_create_anchor(mac_address!(mac_address), position!(body), cmd_tx)
-                .await
+            let (mac_address, position) = (mac_address!(mac_address), position!(body));
+            tokio::spawn(async move {
+                context
+                    .http_create_anchor(mac_address, position, cmd_tx)
+                    .await
+            })
+            .await
+            .unwrap()
         }
         ["destroy-anchor", mac_address] => {
-            context
-                .http_destroy_anchor(mac_address!(mac_address), cmd_tx)
+            let mac_address = mac_address!(mac_address);
+            tokio::spawn(async move { context.http_destroy_anchor(mac_address, cmd_tx).await })
                 .await
+                .unwrap()
         }
         ["get-state"] => context.http_get_state(),
 
-- 
2.43.0


From ca3c7c06c70c56fd8cf6cb2ffcdbba18b079791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:34 +0000
Subject: [PATCH 23/35] fix: stop the reader task of the python host when the
 connection is closed

---
 py/pica/pica/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/pica/pica/__init__.py b/py/pica/pica/__init__.py
index 423824f..eb11168 100644
--- a/py/pica/pica/__init__.py
+++ b/py/pica/pica/__init__.py
@@ -34,6 +34,8 @@ class Host:
         received = bytes()
         while len(received) < expected_len:
             chunk = await self.reader.read(expected_len - len(received))
+            if not chunk:
+                raise ConnectionError("the connection was closed")
             received += chunk
         return received
 
-- 
2.43.0


From 9b20c7c3f2d11c7b48fb7d06b7416eaf50bbbeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:21 +0000
Subject: [PATCH 24/35] fix: announce the end of an active session before the
 change of the device state

---
 src/device.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 7978275..05d57e2 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -380,15 +380,16 @@ impl Device {
         log::debug!("[{}] Session deinit", self.handle);
         log::debug!("  session_id=0x{:x}", session_id);
 
-        let status = match self.sessions.get_mut(&session_id) {
+        let status = match self.sessions.remove(&session_id) {
             Some(session) => {
-                if session.state == SessionState::SessionStateActive {
+                let was_active = session.state == SessionState::SessionStateActive;
+                drop(session);
+                if was_active {
                     self.n_active_sessions -= 1;
                     if self.n_active_sessions == 0 {
                         self.set_state(DeviceState::DeviceStateReady);
                     }
                 }
-                self.sessions.remove(&session_id);
                 uci::Status::Ok
             }
             None => uci::Status::ErrorSessionNotExist,
-- 
2.43.0


From d1401d2a8bc0b985662cfe23838f1d3fcbd1011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 25/35] fix: ignore pending ranging rounds of restarted
 sessions

---
 src/device.rs  |  4 +++-
 src/lib.rs     | 22 ++++++++++++++--------
 src/session.rs |  4 ++++
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index 05d57e2..65dbabf 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -826,10 +826,12 @@ impl Device {
 
         let tx = self.pica_tx.clone();
         let handle = self.handle;
+        let start_time = time::Instant::now();
+        session.ranging_start_time = Some(start_time);
         session.ranging_task = Some(tokio::spawn(async move {
             loop {
                 time::sleep(ranging_interval).await;
-                tx.send(PicaCommand::Ranging(handle, session_id))
+                tx.send(PicaCommand::Ranging(handle, session_id, start_time))
                     .await
                     .unwrap();
             }
diff --git a/src/lib.rs b/src/lib.rs
index f765017..1207b46 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -21,6 +21,7 @@ use std::path::PathBuf;
 use std::pin::Pin;
 use thiserror::Error;
 use tokio::sync::{broadcast, mpsc, oneshot};
+use tokio::time;
 
 pub mod packets;
 mod pcapng;
@@ -95,8 +96,9 @@ pub enum PicaCommand {
     Connect(UciStream, UciSink),
     // Disconnect the selected device.
     Disconnect(usize),
-    // Execute ranging command for selected device and session.
-    Ranging(usize, u32),
+    // Execute ranging command for selected device and session, from the ranging
+    // task started at the selected time.
+    Ranging(usize, u32, time::Instant),
     // Send an in-band request to stop ranging to a peer controlee identified by address and session id.
     StopRanging(MacAddress, u32),
     // UCI packet received for the selected device.
@@ -118,7 +120,7 @@ impl Display for PicaCommand {
         let cmd = match self {
             PicaCommand::Connect(_, _) => "Connect",
             PicaCommand::Disconnect(_) => "Disconnect",
-            PicaCommand::Ranging(_, _) => "Ranging",
+            PicaCommand::Ranging(_, _, _) => "Ranging",
             PicaCommand::StopRanging(_, _) => "StopRanging",
             PicaCommand::UciPacket(_, _) => "UciPacket",
             PicaCommand::CreateAnchor(_, _) => "CreateAnchor",
@@ -430,19 +432,21 @@ impl Pica {
         }
     }
 
-    fn ranging(&mut self, device_handle: usize, session_id: u32) {
+    fn ranging(&mut self, device_handle: usize, session_id: u32, start_time: time::Instant) {
         log::debug!("[{}] Ranging event", device_handle);
         log::debug!("  session_id={}", session_id);
 
-        // The session may have been stopped, or the device disconnected,
-        // while the command was pending.
+        // The session may have been stopped or restarted, or the device
+        // disconnected, while the command was pending.
         let Some(device) = self.get_device(device_handle) else {
             return;
         };
         let Some(session) = device.session(session_id) else {
             return;
         };
-        if session.session_state() != SessionState::SessionStateActive {
+        if session.session_state() != SessionState::SessionStateActive
+            || session.ranging_start_time != Some(start_time)
+        {
             return;
         }
 
@@ -583,7 +587,9 @@ impl Pica {
                 let _ = self.add_device(stream, sink);
             }
             Disconnect(device_handle) => self.disconnect(device_handle),
-            Ranging(device_handle, session_id) => self.ranging(device_handle, session_id),
+            Ranging(device_handle, session_id, start_time) => {
+                self.ranging(device_handle, session_id, start_time)
+            }
             StopRanging(mac_address, session_id) => {
                 self.stop_controlee_ranging(&mac_address, session_id)
             }
diff --git a/src/session.rs b/src/session.rs
index 474c0f0..38f8e27 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -22,6 +22,7 @@ use bytes::BytesMut;
 use pdl_runtime::Packet;
 use tokio::sync::mpsc;
 use tokio::task::JoinHandle;
+use tokio::time;
 
 use super::UciPacket;
 
@@ -37,6 +38,8 @@ pub struct Session {
     pub sequence_number: u32,
     pub app_config: AppConfig,
     pub ranging_task: Option<JoinHandle<()>>,
+    /// Time when the ranging task was started.
+    pub ranging_start_time: Option<time::Instant>,
     /// Queue of pending notifications.
     ntf_tx: mpsc::UnboundedSender<UciPacket>,
 }
@@ -57,6 +60,7 @@ impl Session {
             sequence_number: 0,
             app_config: AppConfig::default(),
             ranging_task: None,
+            ranging_start_time: None,
             ntf_tx,
         }
     }
-- 
2.43.0


From 2541bd38df5a58c41a69b6979686bbea887eead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 26/35] fix: apply anchor and connection changes to the state
 of the server in order

---
 src/bin/http-server/main.rs | 40 +++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index dd1f50d..94d667f 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -112,8 +112,10 @@ pub enum Event {
 #[derive(Clone)]
 struct Context {
     devices: Arc<Mutex<HashMap<pica::Handle, DeviceInformation>>>,
-    /// Serialize the creation and destruction of anchors.
-    anchors: Arc<tokio::sync::Mutex<()>>,
+    /// Connection events that are not applied to the devices yet.
+    /// Locked during the creation and destruction of anchors, so that all
+    /// changes are applied in the order they happened.
+    connections: Arc<tokio::sync::Mutex<Option<broadcast::Receiver<PicaEvent>>>>,
     events: broadcast::Sender<Event>,
 }
 
@@ -122,7 +124,7 @@ impl Context {
         let (events, _) = broadcast::channel(1024);
         Context {
             devices: Arc::new(Mutex::new(HashMap::new())),
-            anchors: Default::default(),
+            connections: Default::default(),
             events,
         }
     }
@@ -133,12 +135,10 @@ impl Context {
         let _ = self.events.send(event);
     }
 
-    async fn handle_connection_events(
-        self,
-        mut events: broadcast::Receiver<PicaEvent>,
-    ) -> Result<()> {
+    fn apply_connection_events(&self, events: &mut Option<broadcast::Receiver<PicaEvent>>) {
+        let Some(events) = events else { return };
         loop {
-            match events.recv().await {
+            match events.try_recv() {
                 Ok(PicaEvent::Connected {
                     mac_address,
                     handle,
@@ -169,9 +169,24 @@ impl Context {
                         mac_address,
                     });
                 }
-                Err(broadcast::error::RecvError::Lagged(count)) => {
+                Err(broadcast::error::TryRecvError::Lagged(count)) => {
                     log::error!("missed {} connection events", count)
                 }
+                Err(_) => break,
+            }
+        }
+    }
+
+    async fn handle_connection_events(
+        self,
+        mut events: broadcast::Receiver<PicaEvent>,
+    ) -> Result<()> {
+        loop {
+            match events.recv().await {
+                Ok(_) | Err(broadcast::error::RecvError::Lagged(_)) => {
+                    let mut connections = self.connections.lock().await;
+                    self.apply_connection_events(&mut connections)
+                }
                 Err(err) => anyhow::bail!(err),
             }
         }
@@ -266,7 +281,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("create-anchor({}, {})", mac_address, position);
 
-        let _guard = self.anchors.lock().await;
+        let mut connections = self.connections.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::CreateAnchor(mac_address, rsp_tx))
@@ -275,6 +290,8 @@ impl Context {
 
         let status = match rsp_rx.await {
             Ok(Ok(handle)) => {
+                // The address may have been released by a device.
+                self.apply_connection_events(&mut connections);
                 let mut devices = self.devices.lock().unwrap();
                 devices.insert(
                     handle,
@@ -306,7 +323,7 @@ impl Context {
     ) -> Response<Body> {
         log::info!("destroy-anchor({})", mac_address);
 
-        let _guard = self.anchors.lock().await;
+        let _guard = self.connections.lock().await;
         let (rsp_tx, rsp_rx) = oneshot::channel::<Result<pica::Handle, PicaCommandError>>();
         cmd_tx
             .send(PicaCommand::DestroyAnchor(mac_address, rsp_tx))
@@ -560,6 +577,7 @@ async fn main() -> Result<()> {
     let pica = Pica::new(Box::new(context.clone()), args.pcapng_dir);
     let cmd_tx = pica.commands();
     let events_rx = pica.events();
+    *context.connections.lock().await = Some(pica.events());
 
     try_join!(
         pica.run(),
-- 
2.43.0


From 1e0a4ce59dcd06b789edcf3c18e6bf070e030736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:48 +0000
Subject: [PATCH 27/35] fix: remove the neighbors which left from the displayed
 device details

---
 static/index.html | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/static/index.html b/static/index.html
index 774dcae..87a8db8 100644
--- a/static/index.html
+++ b/static/index.html
@@ -172,6 +172,8 @@ limitations under the License.
         (neighbor) => neighbor.mac_address !== mac_address
       );
     });
+
+    info.update();
   });
 
   events.addEventListener("device-updated", (event) => {
-- 
2.43.0


From 8c8cedec371c476583c0d105fd64118d0c5b1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:49 +0000
Subject: [PATCH 28/35] fix: request the state in the web page when the event
 stream is opened

The devices were requested when the page was loaded, whether or not the
event stream was opened: the page missed, duplicated or kept devices which
changed before the stream was opened or while it was interrupted.
---
 static/index.html | 78 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 15 deletions(-)

diff --git a/static/index.html b/static/index.html
index 87a8db8..7674407 100644
--- a/static/index.html
+++ b/static/index.html
@@ -90,15 +90,58 @@ limitations under the License.
     }
   }
 
+  const events = new EventSource("/events");
+
+  // Events received while the state is requested, applied after it.
+  let pending = null;
+
   async function update_state() {
-    const res = await fetch('/get-state');
-    const { devices } = await res.json();
-    map.devices = devices.map(device => parse_device(device));
+    const received = (pending = []);
+    try {
+      const res = await fetch('/get-state');
+      const { devices } = await res.json();
+      if (pending === received) set_devices(devices.map(device => parse_device(device)));
+    } finally {
+      if (pending === received) {
+        pending = null;
+        received.forEach((apply) => apply());
+      }
+    }
   }
 
-  window.addEventListener('load', async () => {
-    update_state();
-  });
+  // Replaces the devices, the known ones keep their identity and the
+  // neighbors which still exist.
+  function set_devices(devices) {
+    map.devices = devices.map((device) => {
+      const { neighbors, ...state } = device;
+      return Object.assign(
+        map.devices.find(({ mac_address }) => mac_address === device.mac_address) || device,
+        state
+      );
+    });
+
+    map.devices.forEach((device) => {
+      device.neighbors = device.neighbors.filter((neighbor) =>
+        map.devices.some(({ mac_address }) => mac_address === neighbor.mac_address)
+      );
+    });
+
+    if (!map.devices.includes(info.device)) info.device = null;
+
+    map.update();
+    info.update();
+  }
+
+  function on_event(name, handler) {
+    events.addEventListener(name, (event) => {
+      if (pending) pending.push(() => handler(event));
+      else handler(event);
+    });
+  }
+
+  // The events sent before the stream is opened, or while it is interrupted,
+  // are not received: the state is requested each time.
+  events.addEventListener("open", () => update_state());
 
   map.addEventListener(
     "select",
@@ -140,19 +183,18 @@ limitations under the License.
     set_position(info.device);
   });
 
-  const events = new EventSource("/events");
-
-  events.addEventListener("device-added", (event) => {
+  on_event("device-added", (event) => {
     const data = JSON.parse(event.data);
     console.log("Device Added", data);
 
-    map.devices = [
-      ...map.devices,
+    // The device is already known if it was added before the state was sent.
+    set_devices([
+      ...map.devices.filter(({ mac_address }) => mac_address !== data.mac_address),
       parse_device(data)
-    ];
+    ]);
   });
 
-  events.addEventListener("device-removed", (event) => {
+  on_event("device-removed", (event) => {
     const data = JSON.parse(event.data);
     console.log("Device Removed", data);
 
@@ -176,7 +218,7 @@ limitations under the License.
     info.update();
   });
 
-  events.addEventListener("device-updated", (event) => {
+  on_event("device-updated", (event) => {
     const data = JSON.parse(event.data);
     console.log("Position updated", data);
 
@@ -188,6 +230,9 @@ limitations under the License.
       (device) => device.mac_address === mac_address
     );
 
+    // The device may have been removed before the state was sent.
+    if (!device) return;
+
     device.position = { x, y, z };
     device.yaw = yaw;
     device.pitch = pitch;
@@ -197,7 +242,7 @@ limitations under the License.
     info.update();
   });
 
-  events.addEventListener("neighbor-updated", (event) => {
+  on_event("neighbor-updated", (event) => {
     const data = JSON.parse(event.data);
     console.log("Neighbor updated", data);
 
@@ -213,6 +258,9 @@ limitations under the License.
       (device) => device.mac_address === source_mac_address
     );
 
+    if (!device || !map.devices.some(({ mac_address }) => mac_address === destination_mac_address))
+      return;
+
     const neighbor = device.neighbors.find(
       (device) => device.mac_address == destination_mac_address
     ) || { mac_address: destination_mac_address };
-- 
2.43.0


From b0b5bf0cf605a136cbeb7c15e7d35367c8c306b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:18 +0000
Subject: [PATCH 29/35] fix: measure both directions of a ranging from the same
 positions

The distance and angles of a report were evaluated with two locks of the
scene, a device moved in between gave a measurement with the angle of arrival
from its old position and the remote angle of arrival from its new position.
---
 src/bin/http-server/main.rs | 32 ++++++++++++++++++++++++++------
 src/lib.rs                  | 32 ++++++++++++++++----------------
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 94d667f..bb8cb26 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -368,6 +368,17 @@ impl Context {
     }
 }
 
+/// Evaluate the ranging measurement of the right position relative to the
+/// left position.
+fn measure(left: &Position, right: &Position) -> pica::RangingMeasurement {
+    let (range, azimuth, elevation) = left.compute_range_azimuth_elevation(right);
+    pica::RangingMeasurement {
+        range,
+        azimuth,
+        elevation,
+    }
+}
+
 impl pica::RangingEstimator for Context {
     fn estimate(
         &self,
@@ -377,12 +388,21 @@ impl pica::RangingEstimator for Context {
         let devices = self.devices.lock().ok()?;
         let left_pos = devices.get(left)?.position;
         let right_pos = devices.get(right)?.position;
-        let (range, azimuth, elevation) = left_pos.compute_range_azimuth_elevation(&right_pos);
-        Some(pica::RangingMeasurement {
-            range,
-            azimuth,
-            elevation,
-        })
+        Some(measure(&left_pos, &right_pos))
+    }
+
+    fn estimate_both(
+        &self,
+        left: &pica::Handle,
+        right: &pica::Handle,
+    ) -> Option<(pica::RangingMeasurement, pica::RangingMeasurement)> {
+        let devices = self.devices.lock().ok()?;
+        let left_pos = devices.get(left)?.position;
+        let right_pos = devices.get(right)?.position;
+        Some((
+            measure(&left_pos, &right_pos),
+            measure(&right_pos, &left_pos),
+        ))
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 1207b46..8c67759 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -67,6 +67,18 @@ pub trait RangingEstimator: Send + Sync {
     /// Return `None` if the measurement could not be estimated, e.g. because
     /// the devices are out of range.
     fn estimate(&self, left: &Handle, right: &Handle) -> Option<RangingMeasurement>;
+
+    /// Evaluate the ranging measurements in both directions: of the right
+    /// device relative to the left device, and of the left device relative to
+    /// the right device. Estimators whose devices can move concurrently
+    /// must evaluate both for the same position of the devices.
+    fn estimate_both(
+        &self,
+        left: &Handle,
+        right: &Handle,
+    ) -> Option<(RangingMeasurement, RangingMeasurement)> {
+        Some((self.estimate(left, right)?, self.estimate(right, left)?))
+    }
 }
 
 /// Pica emulation environment.
@@ -457,15 +469,9 @@ impl Pica {
         // Look for compatible anchors.
         for mac_address in session.get_dst_mac_address() {
             if let Some(other) = self.anchors.get(mac_address) {
-                let Some(local) = self
-                    .ranging_estimator
-                    .estimate(&device.handle, &other.handle)
-                else {
-                    continue;
-                };
-                let Some(remote) = self
+                let Some((local, remote)) = self
                     .ranging_estimator
-                    .estimate(&other.handle, &device.handle)
+                    .estimate_both(&device.handle, &other.handle)
                 else {
                     continue;
                 };
@@ -487,15 +493,9 @@ impl Pica {
                     .app_config
                     .device_mac_address
                     .unwrap();
-                let Some(local) = self
-                    .ranging_estimator
-                    .estimate(&device.handle, &peer_device.handle)
-                else {
-                    continue;
-                };
-                let Some(remote) = self
+                let Some((local, remote)) = self
                     .ranging_estimator
-                    .estimate(&peer_device.handle, &device.handle)
+                    .estimate_both(&device.handle, &peer_device.handle)
                 else {
                     continue;
                 };
-- 
2.43.0


From f134c4008d104eb6e12460a3a923ce6ac27e987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:28 +0000
Subject: [PATCH 30/35] fix: refuse a truncated position instead of taking the
 default one

---
 src/bin/http-server/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index bb8cb26..02d7979 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -17,7 +17,6 @@ use clap::Parser;
 use hyper::service::{make_service_fn, service_fn};
 use hyper::{body, Body, Request, Response, Server, StatusCode as HttpStatusCode};
 use serde::{Deserialize, Serialize};
-use serde_json::error::Category as SerdeErrorCategory;
 use std::collections::HashMap;
 use std::convert::Infallible;
 use std::net::{Ipv4Addr, SocketAddrV4};
@@ -424,7 +423,8 @@ macro_rules! position {
         match serde_json::from_slice::<PositionBody>(&$body) {
             Ok(body) => Position::new(body.x, body.y, body.z, body.yaw, body.pitch, body.roll),
             Err(err) => {
-                if !$mandatory && err.classify() == SerdeErrorCategory::Eof {
+                // Only a missing position has a default value, not a truncated one.
+                if !$mandatory && $body.iter().all(u8::is_ascii_whitespace) {
                     Position::default()
                 } else {
                     let reason = format!("Error while deserializing position: {}", err);
-- 
2.43.0


From d209b2fc2e425fc453ecc582ac42e3ce9afcb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:28 +0000
Subject: [PATCH 31/35] fix: set-position requires a position

---
 src/bin/http-server/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 02d7979..828a4fd 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -489,7 +489,7 @@ async fn http_request(
             context.http_set_position(mac_address!(mac_address), position!(body))
         }
         ["set-position", mac_address] => {
-            context.http_set_position(mac_address!(mac_address), position!(body))
+            context.http_set_position(mac_address!(mac_address), position!(body, true))
         }
         // The creation and destruction of anchors must be completed even when
         // the client disconnects, i.e. when the future of the request is dropped.
-- 
2.43.0


From af7e2219aa0c1fbf63178c1ecf692bc3d6b663d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:53 +0000
Subject: [PATCH 32/35] fix: read the whole request before answering it

---
 src/bin/http-server/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/http-server/main.rs b/src/bin/http-server/main.rs
index 828a4fd..7db116d 100644
--- a/src/bin/http-server/main.rs
+++ b/src/bin/http-server/main.rs
@@ -465,6 +465,10 @@ async fn http_request(
     cmd_tx: mpsc::Sender<PicaCommand>,
     context: Context,
 ) -> Result<Response<Body>, Infallible> {
+    // Read the whole request first: the connection is closed after the answer
+    // to a request that is still incomplete, and what is left of it is lost.
+    let body = body::to_bytes(req.body_mut()).await.unwrap();
+
     let static_file = STATIC_FILES
         .iter()
         .find(|(path, _, _)| req.uri().path() == *path);
@@ -476,7 +480,6 @@ async fn http_request(
             .unwrap());
     }
 
-    let body = body::to_bytes(req.body_mut()).await.unwrap();
     let response = match req
         .uri_mut()
         .path()
-- 
2.43.0


From ca499f5a2c57c36d75ac00678297acbc41dd3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:06 +0000
Subject: [PATCH 33/35] fix: use the names of the UCI library in the console

---
 py/pica/console.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/py/pica/console.py b/py/pica/console.py
index 425db53..ad1ec4b 100755
--- a/py/pica/console.py
+++ b/py/pica/console.py
@@ -146,25 +146,25 @@ class Device:
     def device_reset(self, **kargs):
         """Reset the UWBS."""
         self.host.send_control(
-            uci.DeviceResetCmd(reset_config=uci.ResetConfig.UWBS_RESET)
+            uci.CoreDeviceResetCmd(reset_config=uci.ResetConfig.UWBS_RESET)
         )
 
     def get_device_info(self, **kargs):
         """Retrieve the device information like (UCI version and other vendor specific info)."""
-        self.host.send_control(uci.GetDeviceInfoCmd())
+        self.host.send_control(uci.CoreGetDeviceInfoCmd())
 
     def get_caps_info(self, **kargs):
         """Get the capability of the UWBS."""
-        self.host.send_control(uci.GetCapsInfoCmd())
+        self.host.send_control(uci.CoreGetCapsInfoCmd())
 
     def set_config(self, low_power_mode: str = "0", **kargs):
         """Set the configuration parameters on the UWBS."""
         self.host.send_control(
-            uci.SetConfigCmd(
-                tlvs=[
-                    uci.DeviceConfigTlv(
-                        cfg_id=uci.DeviceConfigId.LOW_POWER_MODE,
-                        v=bytes([int(low_power_mode)]),
+            uci.CoreSetConfigCmd(
+                parameters=[
+                    uci.ConfigParameter(
+                        id=uci.ConfigParameterId.LOW_POWER_MODE,
+                        value=bytes([int(low_power_mode)]),
                     ),
                 ]
             )
@@ -173,10 +173,10 @@ class Device:
     def get_config(self, **kargs):
         """Retrieve the current configuration parameter(s) of the UWBS."""
         self.host.send_control(
-            uci.GetConfigCmd(
-                cfg_id=[
-                    uci.DeviceConfigId.LOW_POWER_MODE,
-                    uci.DeviceConfigId.DEVICE_STATE,
+            uci.CoreGetConfigCmd(
+                parameter_ids=[
+                    uci.ConfigParameterId.LOW_POWER_MODE,
+                    uci.ConfigParameterId.DEVICE_STATE,
                 ]
             )
         )
@@ -230,7 +230,7 @@ class Device:
                         v=int(ranging_interval).to_bytes(4, byteorder="little"),
                     ),
                     uci.AppConfigTlv(
-                        cfg_id=uci.AppConfigTlvType.NO_OF_CONTROLEE,
+                        cfg_id=uci.AppConfigTlvType.NUMBER_OF_CONTROLEES,
                         v=bytes([len(dst_mac_addresses)]),
                     ),
                     uci.AppConfigTlv(
-- 
2.43.0


From 74ab8acf9113b271d8db5e7ef8a7cf15dde7d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:06 +0000
Subject: [PATCH 34/35] fix: report an invalid console command instead of
 exiting

---
 py/pica/console.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/pica/console.py b/py/pica/console.py
index ad1ec4b..37f7254 100755
--- a/py/pica/console.py
+++ b/py/pica/console.py
@@ -477,7 +477,7 @@ async def command_line(device: Device):
             if len(param) == 0:
                 continue
             elif "=" in param:
-                [key, value] = param.split("=")
+                [key, value] = param.split("=", 1)
                 kargs[key] = value
             else:
                 args.append(param)
@@ -488,7 +488,10 @@ async def command_line(device: Device):
             print(f"Undefined command {cmd}")
             usage()
             continue
-        commands[cmd](*args, **kargs)
+        try:
+            commands[cmd](*args, **kargs)
+        except Exception as exn:
+            print(f"Failed to run {cmd}: {exn}")
 
 
 async def run(address: str, uci_port: int, http_port: int):
-- 
2.43.0


From 31ba6084108658258e0d289296ef943c0efbedc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:17 +0000
Subject: [PATCH 35/35] fix: limit the number of measurements of a report to
 what it can count

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8c67759..50085f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,6 +510,9 @@ impl Pica {
             }
         }
 
+        // The number of measurements of one report is limited to 8 bits.
+        measurements.truncate(u8::MAX as usize);
+
         // TODO: Data transfer should be limited in size for
         // each round of ranging
         // Sending fails when the connection of the device is closing.
-- 
2.43.0

