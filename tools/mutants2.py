HM, HU, SM, DM = "host_client/mod.rs", "host_client/util.rs", "server/mod.rs", "server/dispatch_macro.rs"
NU = "host_client/raw_nusb.rs"
MUTANTS = [
 ("c23-zlp-never", "C23", NU, "(data.len() % mps) == 0", "(data.len() % mps) == 0 && data.len() < 512"),
 ("c23-zlp-eq", "C23", NU, "(data.len() % mps) == 0", "data.len() == mps"),
 ("c23-zlp-pow2", "C23", NU, "(data.len() % mps) == 0", "(data.len() % mps.max(64)) == 0"),
 ("c23-zlp-unawaited", "C23", NU, "        if needs_zlp {\n            let send_res = self.boq.next_complete().await;", "        if needs_zlp && self.boq.pending() > 1 {\n            let send_res = self.boq.next_complete().await;"),
 ("c23-zlp-err-ignored", "C23", NU, '                tracing::error!("Output Queue Error: {e:?}");\n                return Err(e.into());\n            }\n        }\n\n        Ok(())', '                tracing::error!("Output Queue Error: {e:?}");\n            }\n        }\n\n        Ok(())'),
 ("c23-drain-few", "C23", NU, "for _ in 0..(IN_FLIGHT_REQS - 1) {", "for _ in 0..(IN_FLIGHT_REQS - 2) {"),
 ("c23-no-cancel", "C23", NU, "                    self.biq.cancel_all();\n", "                    if self.consecutive_errs > 1 { self.biq.cancel_all(); }\n"),
 ("c23-count-not-reset", "C23", NU, "                self.consecutive_errs = 0;\n", "                self.consecutive_errs -= 1;\n"),
 ("c23-retries", "C23", NU, "self.consecutive_errs <= MAX_STALL_RETRIES", "self.consecutive_errs < MAX_STALL_RETRIES"),
 ("c23-fault-recover", "C23", NU, "TransferError::Fault => false", "TransferError::Fault => self.consecutive_errs <= 1"),
 ("c23-unknown-fatal", "C23", NU, "TransferError::Stall | TransferError::Unknown => {", "TransferError::Unknown => self.consecutive_errs <= 1,\n                    TransferError::Stall => {"),
 ("c23-clear-fails-ignored", "C23", NU, '                            tracing::error!("Failed to clear stall: {e:?}, Fatal.");\n                            true', '                            tracing::error!("Failed to clear stall: {e:?}, Fatal.");\n                            self.consecutive_errs > 3'),
 ("c23-all-endpoints", "C23", NU, "                .filter(|e| e.transfer_type() == EndpointType::Bulk)\n", "                .filter(|e| e.transfer_type() != EndpointType::Interrupt)\n"),
 ("c23-size", "C23", NU, "const MAX_TRANSFER_SIZE: usize = 1024", "const MAX_TRANSFER_SIZE: usize = 1000"),
 ("c23-max-mps", "C23", NU, "                        mps = Some(match mps.take() {", "                        let _ = ();\n                        mps = Some(match mps.take().filter(|_| false) {"),
 ("c23-last-if", "C23", NU, ".position(|i| i.class() == 0xFF)", ".position(|i| i.class() >= 0x0A)"),
 ("c23-rehydrate", "C23", NU, "IN_FLIGHT_REQS.saturating_sub(pending)", "IN_FLIGHT_REQS.saturating_sub(pending + (self.consecutive_errs > 2) as usize)"),
 ("c23-empty-fatal", "C23 C22", NU, "            return Ok(res.data);", "            if res.data.is_empty() && self.biq.pending() < 3 { return Err(TransferError::Unknown.into()); }\n            return Ok(res.data);"),
 ("c24-resp-key", "C24 C13", "macros.rs", "const RESP_KEY: $crate::Key = $crate::Key::for_path::<$resp_ty>($path_str);", "const RESP_KEY: $crate::Key = $crate::Key::for_path::<$req_ty>($path_str);"),
 ("c24-resp-key-single", "C24", "macros.rs", "const RESP_KEY: $crate::Key = $crate::Key::for_path::<$resp>($path);", "const RESP_KEY: $crate::Key = $crate::Key::for_path::<$req>($path);"),
 ("c24-topic-single", "C24", "macros.rs", "const TOPIC_KEY: $crate::Key = $crate::Key::for_path::<$msg>($path);", "const TOPIC_KEY: $crate::Key = $crate::Key::for_path::<$msg>(stringify!($tyname));"),
 ("c24-dir-types", "C24 C14", "macros.rs", "$crate::TopicDirection::ToServer => $crate::standard_icd::STANDARD_ICD_TOPICS_IN.types", "$crate::TopicDirection::ToServer => $crate::standard_icd::STANDARD_ICD_ENDPOINTS.types"),
 ("c24-std-err", "C24", "standard_icd.rs", "pub const ERROR_KEY: Key = Key::for_path::<WireError>(ERROR_PATH);", "pub const ERROR_KEY: Key = Key::for_path::<FrameTooLong>(ERROR_PATH);"),
 ("c24-nostd-field", "C24", "standard_icd.rs", "        path: &'a str,", "@1@        path: &'a [u8],"),
 ("c24-user-types-dropped", "C24 C14", "macros.rs", "                    $crate::unique_types!(<$ep_name as $crate::Endpoint>::Response),\n", "                    $crate::unique_types!(<$ep_name as $crate::Endpoint>::Request),\n"),
 ("c24-devmap-out", "C24 C13", DM, "                                $topic_out_list.types,\n", "                                $topic_in_list.types,\n"),
 ("c24-nostd-log", "C24 C18", "standard_icd.rs", '    | LoggingTopic          | str               | "postcard-rpc/logging"  ', '    | LoggingTopic          | str               | "postcard-rpc/log"  '),
]
