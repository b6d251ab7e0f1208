From 9dbc2917c3d06f0a00ae298dace6164f1fcd464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 01/14] fix: convert NAV-HPPOSECEF centimetres to metres

The factor was written 10e-2 (0.1) instead of 1e-2.
---
 ublox/src/ubx_packets/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 4b93b7d..0005e9e 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -64,9 +64,9 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
 impl<'a> From<&NavHpPosEcefRef<'a>> for PositionECEF {
     fn from(packet: &NavHpPosEcefRef<'a>) -> Self {
         PositionECEF {
-            x: 10e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
-            y: 10e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
-            z: 10e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
+            x: 1e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
+            y: 1e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
+            z: 1e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
         }
     }
 }
-- 
2.43.0


From bf69eb3bd0a4c6384adf2bb10998925d15843566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 02/14] fix: scale the high precision height of NAV-HPPOSLLH to
 metres

height_hp_msl() is in millimetres, height_msl() in metres.
---
 ublox/src/ubx_packets/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 0005e9e..712bb0b 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -56,7 +56,8 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
         Position {
             lon: packet.lon_degrees() + packet.lon_hp_degrees(),
             lat: packet.lat_degrees() + packet.lat_hp_degrees(),
-            alt: packet.height_msl() + packet.height_hp_msl(),
+            // height_msl is in meters, its high precision component in millimeters
+            alt: packet.height_msl() + 1e-3 * packet.height_hp_msl(),
         }
     }
 }
-- 
2.43.0


From 446c78aedb05be4534058dd49ded90a22afb5fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 03/14] fix: extract the sub-fields of a received CFG-ITFM
 config word

The whole word was stored in each sub-field without shifting it down, so the
thresholds read from a receiver were wrong and could not be sent back.
---
 ublox/src/ubx_packets/packets.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e203d33..8a1fce3 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -905,9 +905,14 @@ impl CfgItfmConfig {
 impl From<u32> for CfgItfmConfig {
     fn from(cfg: u32) -> Self {
         let enable = (cfg & 0x80000000) > 0;
-        let bb_threshold = CfgItfmBbThreshold::from(cfg);
-        let cw_threshold = CfgItfmCwThreshold::from(cfg);
-        let algorithm_bits = CfgItfmAlgoBits::from(cfg);
+        let bb_threshold = CfgItfmBbThreshold::from(
+            (cfg >> CfgItfmBbThreshold::POSITION) & CfgItfmBbThreshold::MASK,
+        );
+        let cw_threshold = CfgItfmCwThreshold::from(
+            (cfg >> CfgItfmCwThreshold::POSITION) & CfgItfmCwThreshold::MASK,
+        );
+        let algorithm_bits =
+            CfgItfmAlgoBits::from((cfg >> CfgItfmAlgoBits::POSITION) & CfgItfmAlgoBits::MASK);
         Self {
             enable,
             bb_threshold,
@@ -1024,7 +1029,9 @@ impl CfgItfmConfig2 {
 impl From<u32> for CfgItfmConfig2 {
     fn from(cfg: u32) -> Self {
         let scan_aux_bands = (cfg & 0x4000) > 0;
-        let general = CfgItfmGeneralBits::from(cfg);
+        let general = CfgItfmGeneralBits::from(
+            (cfg >> CfgItfmGeneralBits::POSITION) & CfgItfmGeneralBits::MASK,
+        );
         let antenna = CfgItfmAntennaSettings::from(cfg);
         Self {
             scan_aux_bands,
-- 
2.43.0


From 18b60bd07b54866fa28d6c41461b91148058bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 04/14] fix: write the CFG-ITFM antenna setting to bits 12..13

It was written to bits 0..1, on top of the general settings.
---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 8a1fce3..4c17793 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1022,7 +1022,7 @@ impl CfgItfmConfig2 {
     const fn into_raw(self) -> u32 {
         ((self.scan_aux_bands as u32) << 14)
             | self.general.into_raw()
-            | self.antenna.into_raw() as u32
+            | (self.antenna.into_raw() as u32) << 12
     }
 }
 
-- 
2.43.0


From 3b12605fa49a1af287a456b23f68db6735cc1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 05/14] fix: decode the time base of TIM-TM2

The two bits were compared without shifting them down, so any time base but
"receiver" panicked. Frames with the undefined value 3 are not TIM-TM2.
---
 ublox/src/ubx_packets/packets.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 4c17793..833338e 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2844,7 +2844,7 @@ struct TimTm2 {
     /// Channel (i.e. EXTINT) upon which the pulse was measured
     ch: u8,
     /// Flags
-    #[ubx(map_type = TimTm2Flags, from = TimTm2Flags)]
+    #[ubx(map_type = TimTm2Flags, from = TimTm2Flags, is_valid = TimTm2Flags::is_valid, may_fail)]
     flags: u8,
     /// Rising edge counter
     count: u16,
@@ -2869,6 +2869,11 @@ struct TimTm2 {
 pub struct TimTm2Flags(u8);
 
 impl TimTm2Flags {
+    const fn is_valid(flags: u8) -> bool {
+        // the value 3 of timeBase is not defined
+        (flags >> 3) & 0b11 != 3
+    }
+
     pub fn mode(&self) -> TimTm2Mode {
         if self.0 & 0b1 == 0 {
             TimTm2Mode::Single
@@ -2894,7 +2899,7 @@ impl TimTm2Flags {
     }
 
     pub fn time_base(&self) -> TimTm2TimeBase {
-        match self.0 & 0b11000 {
+        match (self.0 >> 3) & 0b11 {
             0 => TimTm2TimeBase::Receiver,
             1 => TimTm2TimeBase::Gnss,
             2 => TimTm2TimeBase::Utc,
-- 
2.43.0


From fb8924405d6d181a8f2d28b43e1fcb25ef25b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 06/14] fix: validate the UART mode of a received CFG-PRT

A frame with an unsupported number of data bits or a reserved parity was
delivered as CfgPrtUart, and then mode() and the Debug and Serialize impls
panicked.
---
 ublox/src/ubx_packets/packets.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 833338e..2a58a3f 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1883,7 +1883,7 @@ struct CfgPrtUart {
     portid: u8,
     reserved0: u8,
     tx_ready: u16,
-    #[ubx(map_type = UartMode)]
+    #[ubx(map_type = UartMode, from = UartMode::from, is_valid = UartMode::is_valid, may_fail)]
     mode: u32,
     baud_rate: u32,
     #[ubx(map_type = InProtoMask)]
@@ -1925,6 +1925,12 @@ impl UartMode {
     const fn into_raw(self) -> u32 {
         self.data_bits.into_raw() | self.parity.into_raw() | self.stop_bits.into_raw()
     }
+
+    const fn is_valid(mode: u32) -> bool {
+        let data_bits = (mode >> DataBits::POSITION) & DataBits::MASK;
+        let parity = (mode >> Parity::POSITION) & Parity::MASK;
+        matches!(data_bits, 0b10 | 0b11) && matches!(parity, 0b000 | 0b001 | 0b100 | 0b101)
+    }
 }
 
 impl From<u32> for UartMode {
-- 
2.43.0


From a21ee9078d574530eb7dbad190be2a55ff1957bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 07/14] fix: let extend_to append to a buffer which is not
 empty

The length was written, and the checksum computed, relative to the start of
the buffer instead of the start of the packet.
---
 ublox_derive/src/output.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 7e1ba73..740a619 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -471,6 +471,7 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
               {
                   // TODO: Enable when `extend_one` feature is stable.
                   // out.extend_reserve(6);
+                  let start = out.len();
                   let mut len_bytes = 0;
                   let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];
                   // TODO: Extend all at once when we bump MSRV
@@ -481,10 +482,10 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                   #(#extend_fields);*;
 
                   let len_bytes = len_bytes.to_le_bytes();
-                  out[4] = len_bytes[0];
-                  out[5] = len_bytes[1];
+                  out[start + 4] = len_bytes[0];
+                  out[start + 5] = len_bytes[1];
 
-                  let (ck_a, ck_b) = ubx_checksum(&out[2..]);
+                  let (ck_a, ck_b) = ubx_checksum(&out[start + 2..]);
                   out.extend(core::iter::once(ck_a));
                   out.extend(core::iter::once(ck_b));
               }
-- 
2.43.0


From 6b6369dc3c472057e3980db82d53815c972424e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:47 +0000
Subject: [PATCH 08/14] fix: derive: lay out the fields that follow a size_fn
 field

A fixed-size field, or an open-ended last field, declared after a size_fn
field was read at its offset without the variable-size field, and such a
packet's minimum length was computed as 0 when its last field is open-ended.
---
 ublox_derive/src/output.rs | 21 +++++++++++++++++----
 ublox_derive/src/types.rs  |  2 +-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 740a619..3350352 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -89,7 +89,15 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
         let field_comment = &f.comment;
 
         if let Some(size_bytes) = f.size_bytes.map(|x| x.get()) {
-            let get_raw = get_raw_field_code(f, off, quote! {self.0});
+            // The payload starting at the end of the preceding variable-size fields, if any
+            let after_dyn = |payload: TokenStream, this: TokenStream| {
+                if size_fns.is_empty() {
+                    payload
+                } else {
+                    quote! { (&#payload[0usize #(+ #this.#size_fns())*..]) }
+                }
+            };
+            let get_raw = get_raw_field_code(f, off, after_dyn(quote! {self.0}, quote! {self}));
             let new_line = quote! { let val = #get_raw;  };
             let mut get_value_lines = vec![new_line];
 
@@ -111,7 +119,11 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                 });
 
                 if f.map.convert_may_fail {
-                    let get_val = get_raw_field_code(f, off, quote! { payload });
+                    let get_val = get_raw_field_code(
+                        f,
+                        off,
+                        after_dyn(quote! { payload }, quote! { #ref_name(payload) }),
+                    );
                     let is_valid_fn = &out_ty.is_valid_fn;
                     field_validators.push(quote! {
                         let val = #get_val;
@@ -144,6 +156,7 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
         } else {
             assert!(field_index == pack_descr.fields.len() - 1 || f.size_fn().is_some());
 
+            let payload_off = quote! { #off #(+ #ref_name(payload).#size_fns())* };
             let range = if let Some(size_fn) = f.size_fn() {
                 let range = quote! {
                     {
@@ -154,7 +167,7 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                 size_fns.push(size_fn);
                 range
             } else {
-                quote! { #off.. }
+                quote! { #off #(+ self.#size_fns())*.. }
             };
 
             let mut get_value_lines = vec![quote! { &self.0[#range] }];
@@ -170,7 +183,7 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                 if f.map.convert_may_fail {
                     let is_valid_fn = &out_ty.is_valid_fn;
                     field_validators.push(quote! {
-                        let val = &payload[#off..];
+                        let val = &payload[#payload_off..];
                         if !#is_valid_fn(val) {
                             return Err(ParserError::InvalidField{
                                 packet: #pack_name,
diff --git a/ublox_derive/src/types.rs b/ublox_derive/src/types.rs
index 777fdcd..f726b43 100644
--- a/ublox_derive/src/types.rs
+++ b/ublox_derive/src/types.rs
@@ -21,7 +21,7 @@ impl PackDesc {
     }
 
     pub fn packet_payload_size_except_size_fn(&self) -> Option<usize> {
-        PackDesc::fields_size(self.fields.iter().filter(|f| f.size_fn().is_none()))
+        PackDesc::fields_size(self.fields.iter().filter(|f| f.size_bytes.is_some()))
     }
 
     fn fields_size<'a, I: Iterator<Item = &'a PackField>>(iter: I) -> Option<usize> {
-- 
2.43.0


From b485b2eae30aa86563654b4aaee79cbc3050d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 09/14] fix: FixedLinearBuffer: do not index past its length

---
 ublox/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/parser.rs b/ublox/src/parser.rs
index 051daca..c654dcc 100644
--- a/ublox/src/parser.rs
+++ b/ublox/src/parser.rs
@@ -108,7 +108,7 @@ impl<'a> core::ops::Index<usize> for FixedLinearBuffer<'a> {
     type Output = u8;
 
     fn index(&self, index: usize) -> &Self::Output {
-        &self.buffer[index]
+        &self.buffer[..self.len][index]
     }
 }
 
-- 
2.43.0


From 3fc7c9a0b83e40239aebf6a6859cfa038e9454bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 10/14] fix: derive: reject attributes which are given twice

---
 ublox_derive/src/input.rs | 58 ++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 28df6cb..3298743 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -193,6 +193,16 @@ pub fn parse_idents_list(input: proc_macro2::TokenStream) -> syn::Result<RecvPac
     syn::parse2(input)
 }
 
+/// The `#[ubx(...)]` attribute, if there is one, of which there may be no other
+fn single_ubx_attr(attrs: &[Attribute]) -> syn::Result<Option<&Attribute>> {
+    let mut ubx_attrs = attrs.iter().filter(|a| a.path.is_ident("ubx"));
+    let attr = ubx_attrs.next();
+    match ubx_attrs.next() {
+        Some(other) => Err(Error::new(other.span(), "Duplicate ubx attribute")),
+        None => Ok(attr),
+    }
+}
+
 fn parse_ubx_extend_attrs(
     ubx_extend_name: &str,
     item_sp: Span,
@@ -202,9 +212,7 @@ fn parse_ubx_extend_attrs(
     Option<UbxTypeIntoFn>,
     Option<UbxEnumRestHandling>,
 )> {
-    let attr = attrs
-        .iter()
-        .find(|a| a.path.is_ident("ubx"))
+    let attr = single_ubx_attr(attrs)?
         .ok_or_else(|| Error::new(item_sp, format!("No ubx attribute for {}", ubx_extend_name)))?;
     let meta = attr.parse_meta()?;
     let mut from_fn = None;
@@ -215,6 +223,15 @@ fn parse_ubx_extend_attrs(
         syn::Meta::List(list) => {
             for item in list.nested {
                 if let syn::NestedMeta::Meta(syn::Meta::Path(p)) = item {
+                    if (p.is_ident("from") || p.is_ident("from_unchecked")) && from_fn.is_some() {
+                        return Err(Error::new(
+                            p.span(),
+                            "from or from_unchecked already defined",
+                        ));
+                    }
+                    if p.is_ident("into_raw") && into_fn.is_some() {
+                        return Err(Error::new(p.span(), "into_raw already defined"));
+                    }
                     if p.is_ident("from") {
                         from_fn = Some(UbxTypeFromFn::From);
                     } else if p.is_ident("into_raw") {
@@ -258,15 +275,12 @@ fn parse_ubx_extend_attrs(
 }
 
 fn parse_ubx_attr(attrs: &[Attribute], struct_name: &Ident) -> syn::Result<PackHeader> {
-    let attr = attrs
-        .iter()
-        .find(|a| a.path.is_ident("ubx"))
-        .ok_or_else(|| {
-            Error::new(
-                struct_name.span(),
-                format!("No ubx attribute for struct {}", struct_name),
-            )
-        })?;
+    let attr = single_ubx_attr(attrs)?.ok_or_else(|| {
+        Error::new(
+            struct_name.span(),
+            format!("No ubx attribute for struct {}", struct_name),
+        )
+    })?;
     let meta = attr.parse_meta()?;
     let meta = match meta {
         syn::Meta::List(x) => x,
@@ -407,15 +421,17 @@ fn parse_fields(fields: Fields) -> syn::Result<Vec<PackField>> {
         let name = name.ok_or_else(|| Error::new(f_sp, "No field name"))?;
         let comment = extract_item_comment(&attrs)?;
         let mut map = PackFieldMap::default();
+        let mut has_map = false;
         for a in attrs {
             if !a.path.is_ident("doc") {
-                if !map.is_none() {
+                if has_map {
                     return Err(Error::new(
                         a.span(),
                         "Two map attributes for the same field",
                     ));
                 }
                 map = a.parse_args::<PackFieldMap>()?;
+                has_map = true;
             }
         }
 
@@ -464,12 +480,6 @@ pub struct PackFieldMap {
     pub get_as_ref: bool,
 }
 
-impl PackFieldMap {
-    fn is_none(&self) -> bool {
-        self.map_type.is_none() && self.scale.is_none() && self.alias.is_none()
-    }
-}
-
 pub struct MapType {
     pub ty: Type,
     pub from_fn: Option<TokenStream>,
@@ -482,12 +492,22 @@ impl Parse for PackFieldMap {
     fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
         let mut map = PackFieldMap::default();
         let mut map_ty = None;
+        let mut keys = Vec::<Ident>::new();
         let mut custom_from_fn: Option<syn::Path> = None;
         let mut custom_into_fn: Option<syn::Expr> = None;
         let mut custom_is_valid_fn: Option<syn::Path> = None;
         let mut custom_size_fn: Option<syn::Path> = None;
         while !input.is_empty() {
             let lookahead = input.lookahead1();
+            if let Ok(key) = input.fork().parse::<Ident>() {
+                if keys.contains(&key) {
+                    return Err(Error::new(
+                        key.span(),
+                        format!("Duplicate \"{}\" attribute", key),
+                    ));
+                }
+                keys.push(key);
+            }
 
             if lookahead.peek(kw::map_type) {
                 input.parse::<kw::map_type>()?;
-- 
2.43.0


From 1295a0fdc1c7dd915c7ed2f0d9e7310c53db8748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 11/14] fix: derive: check the length before each size_fn

---
 ublox_derive/src/output.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 3350352..b6f2523 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -241,10 +241,15 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                 .unwrap_or_default();
             quote! {
                 {
-                    if got < #size {
-                        return Err(ParserError::InvalidPacketLen{ packet: #pack_name, expect: #size, got });
-                    }
-                    #size #(+ #ref_name(payload).#size_fns())*
+                    let min = #size;
+                    // A size function may read a field that follows the preceding variable-size ones
+                    #(
+                        if got < min {
+                            return Err(ParserError::InvalidPacketLen{ packet: #pack_name, expect: min, got });
+                        }
+                        let min = min + #ref_name(payload).#size_fns();
+                    )*
+                    min
                 }
             }
         };
-- 
2.43.0


From 49dad9ae5152d87a111db714ae8e92905d6a8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 12/14] Hook: definitions given by the verification framework
 (cfg ublox_verif)

---
 ublox/src/ubx_packets/packets.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 2a58a3f..115f56c 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3757,3 +3757,11 @@ fn test_mon_ver_interpret() {
     assert_eq!("SBAS;IMES;QZSS", it.next().unwrap());
     assert_eq!(None, it.next());
 }
+
+/// Definitions given to the derive macros by the verification framework
+#[cfg(ublox_verif)]
+#[allow(missing_docs)]
+pub mod verif_defs {
+    use super::*;
+    include!(env!("UBLOX_VERIF_DEFS"));
+}
-- 
2.43.0


From 7c7f1f4f0d7ac27726b20786175093e89577a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:59 +0000
Subject: [PATCH 13/14] fix: AID-INI: count months from 1 and include the day
 of the month

With the UTC flag the receiver takes week_or_ym as YYMM with the month 01..12
and tow_or_hms as DDHHMMSS; set_time wrote the month counted from 0 and no day.
---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 115f56c..86ddd1f 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1267,8 +1267,9 @@ impl AidIniBuilder {
                 panic!("AID-INI packet only supports years after 2000");
             },
         } * 100
-            + tm.month0()) as u16;
-        self.tow_or_hms = tm.hour() * 10000 + tm.minute() * 100 + tm.second();
+            + tm.month()) as u16;
+        self.tow_or_hms =
+            tm.day() * 1_000_000 + tm.hour() * 10000 + tm.minute() * 100 + tm.second();
         self.tow_ns = tm.nanosecond() as i32;
         self.flags |= (1 << 1) | (1 << 10);
         self
-- 
2.43.0


From 1ac5c68ea513235464692113def00542ba12d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:43 +0000
Subject: [PATCH 14/14] fix: deserialize the CFG-ITFM antenna setting from the
 number it is serialized as

---
 ublox/src/ubx_packets/packets.rs | 52 +++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 86ddd1f..307b0b2 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1073,7 +1073,6 @@ impl From<u32> for CfgItfmGeneralBits {
 #[ubx(from_unchecked, into_raw, rest_error)]
 #[repr(u8)]
 #[derive(Debug, Copy, Clone)]
-#[cfg_attr(feature = "serde", derive(serde::Deserialize))]
 pub enum CfgItfmAntennaSettings {
     /// Type of Antenna is not known
     #[default]
@@ -1084,6 +1083,57 @@ pub enum CfgItfmAntennaSettings {
     Passive = 2,
 }
 
+/// Reads back the raw value `#[ubx_extend]` serializes; the name of a variant
+/// is accepted, too.
+#[cfg(feature = "serde")]
+impl<'de> serde::Deserialize<'de> for CfgItfmAntennaSettings {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        struct Visitor;
+
+        impl serde::de::Visitor<'_> for Visitor {
+            type Value = CfgItfmAntennaSettings;
+
+            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                f.write_str("an antenna setting (0, 1 or 2)")
+            }
+
+            fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<Self::Value, E> {
+                match v {
+                    0 => Ok(CfgItfmAntennaSettings::Unknown),
+                    1 => Ok(CfgItfmAntennaSettings::Active),
+                    2 => Ok(CfgItfmAntennaSettings::Passive),
+                    _ => Err(E::invalid_value(serde::de::Unexpected::Unsigned(v), &self)),
+                }
+            }
+
+            fn visit_i64<E: serde::de::Error>(self, v: i64) -> Result<Self::Value, E> {
+                match u64::try_from(v) {
+                    Ok(v) => self.visit_u64(v),
+                    Err(_) => Err(E::invalid_value(serde::de::Unexpected::Signed(v), &self)),
+                }
+            }
+
+            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Self::Value, E> {
+                match v {
+                    "Unknown" => Ok(CfgItfmAntennaSettings::Unknown),
+                    "Active" => Ok(CfgItfmAntennaSettings::Active),
+                    "Passive" => Ok(CfgItfmAntennaSettings::Passive),
+                    _ => Err(E::unknown_variant(v, &["Unknown", "Active", "Passive"])),
+                }
+            }
+        }
+
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(Visitor)
+        } else {
+            deserializer.deserialize_u8(Visitor)
+        }
+    }
+}
+
 impl From<u32> for CfgItfmAntennaSettings {
     fn from(cfg: u32) -> Self {
         let cfg = (cfg & 0x3000) >> 12;
-- 
2.43.0

