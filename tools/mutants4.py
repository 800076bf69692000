"""Hand-written mutants for time-outs, the USB link end to end, and sizes past a threshold."""
E4, E3, RN = 'server/impls/embassy_usb_v0_4.rs', 'server/impls/embassy_usb_v0_3.rs', 'host_client/raw_nusb.rs'
MUTANTS = [
 ('c11-keep-chan', 'C11', [('host_client/util.rs', 'Err(broadcast::error::SendError(_)) => true,', 'Err(broadcast::error::SendError(_)) => false,')]),
 ('c24-stddir', 'C24', [('standard_icd.rs', '    direction = crate::TopicDirection::ToClient;', '    direction = crate::TopicDirection::ToServer;')]),
 ('c27-guid', 'C27', [(E4, '["{AFB9A6FB-30BA-44BC-9232-806CFC875321}"]', '["{AFB9A6FB-30BA-44BC-9232-806CFC875320}"]')]),
 ('c27-post', 'C27', [(E3, 'alt_setting(0xFF, 0xCA, 0x7D, Some(stindx))', 'alt_setting(0xFF, 0, 0, Some(stindx))')]),
 ('c27-mps', 'C27', [(E4, '            let mut alt = interface.alt_setting(0xFF, 0, 0, None);\n            let ep_out = alt.endpoint_bulk_out(64);\n            let ep_in = alt.endpoint_bulk_in(64);', '            let mut alt = interface.alt_setting(0xFF, 0, 0, None);\n            let ep_out = alt.endpoint_bulk_out(64);\n            let ep_in = alt.endpoint_bulk_in(32);')]),
 ('c27-zlp', 'C27 C23', [(RN, '% mps) == 0', '% mps) == 1')]),
 ('c27-xfer', 'C27 C23', [(RN, 'MAX_TRANSFER_SIZE: usize = 1024', 'MAX_TRANSFER_SIZE: usize = 960')]),
 ('c27-dzlp', 'C27 C15', [(E3, '(out.len() & (64 - 1)) == 0 && ep_in', '(out.len() & (64 - 1)) == 0 && out.len() < 1024 && ep_in')]),
 ('c26-lock', 'C26', [(E4, 'let timeout_ms = frames * timeout_ms_per_frame;', 'let timeout_ms = (frames * timeout_ms_per_frame).min(1000);')]),
 ('c26-clamp', 'C26', [(E4, 'timeout.min(60_000).max(1)', 'timeout.min(65_535).max(1)')]),
 ('c11-deep', 'C11', [('host_client/mod.rs', 'broadcast::channel(depth)', 'broadcast::channel(depth.min(32))')]),
 ('c26-round', 'C26', [(E3, '(out.len() + 63) / 64', '(out.len() / 64).max(1)')]),
 ('c26-round2', 'C26', [(E4, '(out.len() + 63) / 64', 'out.len() / 64 + 1')]),
 ('c10-deep', 'C10', [('host_client/mod.rs', 'mpsc::channel(depth)', 'mpsc::channel(depth.min(48))')]),
 ('c13-depth', 'C13', [('host_client/mod.rs', 'self.subscribe_multi::<GetAllSchemaDataTopic>(64)', 'self.subscribe_multi::<GetAllSchemaDataTopic>(16)')]),
 ('c13-tmo', 'C13', [('host_client/mod.rs', 'timeout(Duration::from_millis(100)', 'timeout(Duration::from_millis(10)')]),
]
