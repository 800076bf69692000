HM, HU, SM, DM = "host_client/mod.rs", "host_client/util.rs", "server/mod.rs", "server/dispatch_macro.rs"
U3, U4, TC, HD, UQ = "server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs", "server/impls/test_channels.rs", "header.rs", "uniques.rs"
AC, SE, LB, MC = "accumulator.rs", "host_client/serial.rs", "lib.rs", "macros.rs"
MUTANTS = [
 # --- client ---
 ("c01-seq-race", "C01 C19", HM, "let seq_no = self.ctx.seq.fetch_add(1, Ordering::Relaxed);",
  "let seq_no = self.ctx.seq.load(Ordering::Relaxed);\n        self.ctx.seq.store(seq_no.wrapping_add(1), Ordering::Relaxed);"),
 ("c01-send-before-register", "C01 C20 C21", [
  (HM, "        self.out.send(rqst).await.map_err(|_| HostErr::Closed)?;\n\n        select! {", "        select! {"),
  (HM, "        let setup_fut: Result<(), WaitError> = async {", "        self.out.send(rqst).await.map_err(|_| HostErr::Closed)?;\n        let setup_fut: Result<(), WaitError> = async {")]),
 ("c01-eq-any-seq", "C01 C05 C06", HD, "Into::<u32>::into(*self) == Into::<u32>::into(*other)", "Into::<u32>::into(*self) % 65536 == Into::<u32>::into(*other) % 65536"),
 ("c02-broadcast-not-cleared", "C02", HU, "    guard.broadcast_list.clear();\n", ""),
 ("c02-not-stopped", "C02", HU, "    guard.stopped = true;\n", ""),
 ("c02-tx-err-continues", "C02 C12", HU, 'tracing::error!("Output Queue Error: {e:?}, exiting");\n            return;', 'tracing::error!("Output Queue Error: {e:?}, exiting");\n            continue;'),
 ("c02-clone-own-stopper", "C02", HM, "            stopper: self.stopper.clone(),\n            seq_kind: self.seq_kind,", "            stopper: Stopper::new(),\n            seq_kind: self.seq_kind,"),
 ("c02-no-cancel-call", "C02", HM, "            _c = cancel_fut => Err(HostErr::Closed),\n", "            _c = async { cancel_fut.await; core::future::pending::<()>().await } => Err(HostErr::Closed),\n"),
 ("c02-out-worker-no-stop", "C02", HU, "        _ = operate_fut => {\n            // if WE exited, notify everyone else it's stoppin time\n            stop.stop();\n        },", "@1@        _ = operate_fut => {},"),
 ("c02-close-drops-held", "C02 C10", HM, "            let frame = self.rx.recv().await?;\n", "            let frame = self.rx.recv().await?;\n            if self.rx.is_closed() { return None; }\n"),
 ("c08-kkind-once", "C08", HM, "                *self.ctx.kkind.write().unwrap() = hdr.key.kind();\n                Ok(RpcFrame", "                if kkind == VarKeyKind::Key8 {\n                    *self.ctx.kkind.write().unwrap() = hdr.key.kind();\n                }\n                Ok(RpcFrame"),
 ("c08-pub-not-shrunk", "C08", HM, "        let kkind: VarKeyKind = *self.ctx.kkind.read().unwrap();\n        frame.header.key.shrink_to(kkind);\n\n        let cancel_fut", "        let cancel_fut"),
 ("c09-raw-replaces", "C09", HM, "            if let Some(entry) = guard.exclusive_list.iter_mut().find(|(k, _)| *k == key) {\n                if !entry.1.is_closed() {\n                    return Err(SubscribeError::AlreadySubscribed);\n                }", "            if let Some(entry) = guard.exclusive_list.iter_mut().find(|(k, _)| *k == key) {\n                if !entry.1.is_closed() && entry.1.capacity() == 0 {\n                    return Err(SubscribeError::AlreadySubscribed);\n                }"),
 ("c09-legacy-pushes", "C09 C10", HM, "                    tracing::warn!(\"replacing subscription for topic path '{}'\", T::PATH);\n                }\n                entry.1 = tx;\n            } else {\n                guard.exclusive_list.push((T::TOPIC_KEY, tx));\n            }", "                    tracing::warn!(\"replacing subscription for topic path '{}'\", T::PATH);\n                }\n            }\n            guard.exclusive_list.push((T::TOPIC_KEY, tx));"),
 ("c09-all-topics", "C09 C10", HU, "                    .exclusive_list\n                    .retain(|(k, _)| VarKey::Key8(*k) != key);", "                    .exclusive_list\n                    .clear();"),
 ("c10-timeout-removes", "C10", HU, "r = m.send(frame) => r.is_err(),", "r = m.send(frame) => r.is_ok(),"),
 ("c10-full-removes", "C10", HU, 'tracing::error!("Subscription channel full! Message dropped.");\n                        false\n                    }', 'tracing::error!("Subscription channel full! Message dropped.");\n                        true\n                    }'),
 ("c10-zero-waits-forever", "C10", HU, "tokio::time::sleep(host_ctx.subscription_timeout)", "tokio::time::sleep(host_ctx.subscription_timeout / 2)"),
 ("c10-skip-ends", "C10", HM, "            let frame = self.rx.recv().await?;\n            if let Ok(m) = postcard::from_bytes(&frame.body) {\n                return Some(m);\n            }", "            let frame = self.rx.recv().await?;\n            return postcard::from_bytes(&frame.body).ok();"),
 ("c11-shadow-exclusive", "C11 C10", HU, "            let remove_exl_sub = if let Some((_h, m)) = subs_guard", "            let remove_exl_sub = if handled { false } else if let Some((_h, m)) = subs_guard"),
 ("c11-grow", "C11", HM, "                entry.1.subscribe()\n            } else {\n                let (tx, rx) = broadcast::channel(depth);\n                guard.broadcast_list.push((T::TOPIC_KEY, tx));", "                if entry.1.len() >= depth {\n                    let (tx, rx) = broadcast::channel(depth);\n                    entry.1 = tx;\n                    rx\n                } else {\n                    entry.1.subscribe()\n                }\n            } else {\n                let (tx, rx) = broadcast::channel(depth);\n                guard.broadcast_list.push((T::TOPIC_KEY, tx));"),
 ("c11-remove-all", "C11", HU, "                    .broadcast_list\n                    .retain(|(k, _)| VarKey::Key8(*k) != key);", "                    .broadcast_list\n                    .clear();"),
 ("c12-retry", "C12", HU, "        if let Err(e) = wire.send(msg.to_bytes()).await {", "        let mut res = wire.send(msg.to_bytes()).await;\n        if res.is_err() {\n            res = wire.send(msg.to_bytes()).await;\n        }\n        if let Err(e) = res {"),
 ("c12-two", "C12", HM, "        let operate_fut = self.out.send(frame);\n\n        select! {\n            _ = cancel_fut => Err(IoClosed),\n            res = operate_fut => res.map_err(|_| IoClosed),\n        }", "        if let Err(mpsc::error::TrySendError::Full(frame)) = self.out.try_send(frame) {\n            let out = self.out.clone();\n            tokio::task::spawn(async move { let _ = out.send(frame).await; });\n            tokio::task::yield_now().await;\n        }\n        select! { biased; _ = cancel_fut => Err(IoClosed), _ = core::future::ready(()) => Ok(()) }"),
 ("c13-topics-in", "C13", HM, "        data_matches &= resp.topics_in_sent as usize == rpt.topics_in.len();\n", "        data_matches &= resp.topics_in_sent as usize >= rpt.topics_in.len();\n"),
 ("c13-errors", "C13", HM, "        data_matches &= resp.errors == 0;\n", ""),
 ("c13-missing-type", "C13", HM, "                    rpt.add_endpoint(path, request_key, response_key)?;", "                    let _ = rpt.add_endpoint(path, request_key, response_key);"),
 ("c13-type-err-uncounted", "C13", SM, "            if res.is_err() {\n                err_ctr += 1;\n            };\n            msg_ctr += 1;", "            let _ = res;\n            msg_ctr += 1;"),
 ("c19-resize", "C19", HD, "*self = VarSeq::Seq1((*s) as u8);", "*self = VarSeq::Seq1((*s).min(255) as u8);"),
 ("c20-dup-err-ignored", "C20", HM, "            err_resp.as_mut().enqueue().await?;", "            match err_resp.as_mut().enqueue().await {\n                Err(WaitError::Duplicate) => {}\n                r => { r?; }\n            }"),
 ("c20-dup-closes", "C20 C02", HM, "                    HostErr::BadResponse\n                }\n\n                // These", "                    self.close();\n                    HostErr::BadResponse\n                }\n\n                // These"),
 ("c22-hdr-return", "C22", HU, 'warn!("Header decode error!");\n            continue;', 'warn!("Header decode error!");\n            if res.is_empty() { return; }\n            continue;'),
 ("c22-body-closes", "C22", HM, "        let r = postcard::from_bytes::<E::Response>(&frame.body)?;", "        let r = postcard::from_bytes::<E::Response>(&frame.body).inspect_err(|_| self.close())?;"),
 # --- server ---
 ("c03-spawn-err-lost", "C03", DM, "                let err = $crate::standard_icd::WireError::FailedToSpawn;\n                $outputter.error($header.seq_no, err).await", "                Ok(())"),
 ("c03-ser-err", "C03", DM, "            let reply = $handler($context, $header.clone(), $req).await;\n            if $outputter.reply::<$endpoint>($header.seq_no, &reply).await.is_err() {\n                let err = $crate::standard_icd::WireError::SerFailed;\n                $outputter.error($header.seq_no, err).await\n            } else {\n                Ok(())\n            }", "            let reply = $handler($context, $header.clone(), $req).await;\n            $outputter.reply::<$endpoint>($header.seq_no, &reply).await"),
 ("c03-keysmall-silent", "C03 C07", DM, "                    let err = $crate::standard_icd::WireError::KeyTooSmall;\n                    return tx.error(hdr.seq_no, err).await;", "                    return Ok(());"),
 ("c03-deser-kind", "C03", DM, "                            let Ok(req) = postcard::from_bytes::<<$endpoint as $crate::Endpoint>::Request>(body) else {\n                                let err = $crate::standard_icd::WireError::DeserFailed;", "                            let Ok(req) = postcard::from_bytes::<<$endpoint as $crate::Endpoint>::Request>(body) else {\n                                let err = $crate::standard_icd::WireError::UnknownKey;"),
 ("c03-ping-first-byte", "C03", DM, "tx.reply::<$crate::standard_icd::PingEndpoint>(hdr.seq_no, &req).await", "tx.reply::<$crate::standard_icd::PingEndpoint>(hdr.seq_no, &(req & 0xFFFF)).await"),
 ("c04-timeout-continues", "C04", SM, "                    WireTxErrorKind::Timeout => return ServerError::TxFatal(e),", "                    WireTxErrorKind::Timeout => {}"),
 ("c04-other-stops", "C04", SM, "                    WireTxErrorKind::Other => {}", "                    WireTxErrorKind::Other if body.is_empty() => return ServerError::TxFatal(e),\n                    WireTxErrorKind::Other => {}"),
 ("c04-err-first", "C04", DM, "            let reply = $handler($context, $header.clone(), $req);\n            if $outputter.reply::<$endpoint>($header.seq_no, &reply).await.is_err() {\n                let err = $crate::standard_icd::WireError::SerFailed;\n                $outputter.error($header.seq_no, err).await", "            let reply = $handler($context, $header.clone(), $req);\n            if let Err(e) = $outputter.reply::<$endpoint>($header.seq_no, &reply).await {\n                let err = $crate::standard_icd::WireError::SerFailed;\n                let _ = $outputter.error($header.seq_no, err).await;\n                Err(e)"),
 ("c07-skip", "C07", SM, "                                0\n                            };", "                                j\n                            };"),
 ("c07-no-topics-out", "C07", DM, "                &TP_OUT_KEYS,\n", ""),
 ("c07-no-topics-in", "C07", DM, "                &EP_IN_KEYS,\n                &TP_IN_KEYS,\n", "                &EP_IN_KEYS,\n"),
 ("c07-in-only", "C07", DM, "                if NEEDED_SZ_IN > NEEDED_SZ_OUT {", "                if NEEDED_SZ_IN > 1 {"),
 ("c05-resv", "C05", HD, "            Self::SEQ_FOUR_BITS => {\n                let (seqbs, remain3)", "            Self::SEQ_FOUR_BITS | Self::SEQ_MASK_BITS => {\n                let (seqbs, remain3)"),
 ("c06-eq", "C06", HD, "            (VarKey::Key2(this), VarKey::Key4(other)) => {\n                let other = Key2::from_key4(*other);\n                this.0.eq(&other.0)", "            (VarKey::Key2(this), VarKey::Key4(other)) => {\n                let other = Key1::from_key4(*other);\n                Key1::from_key2(*this).0.eq(&other.0)"),
 ("c06-k2from8", "C06", LB, "Self([a ^ b ^ c ^ d, e ^ f ^ g ^ h])", "Self([a ^ b ^ c ^ d, e ^ f ^ (g | h)])"),
 # --- types ---
 ("c14-valseq", "C14", UQ, "        if !str_eq(a[i].name, b[i].name) {\n            return false;\n        }\n        if !nty_eq", "        if !nty_eq"),
 ("c14-mapval", "C14", UQ, ") => nty_eq(keya, keyb) && nty_eq(vala, valb),", ") => nty_eq(keya, keyb) && dmt_eq(vala.ty, valb.ty),"),
 ("c14-unitstruct-prim", "C14", UQ, "        DataModelType::UnitStruct => false,", "        DataModelType::UnitStruct => true,"),
 # --- usb ---
 ("c15-pending-late", "C15", [(U4, "        *pending_frame = true;\n\n", ""), (U4, "        // If the total we sent was a multiple of 64, send an\n", "        *pending_frame = true;\n        // If the total we sent was a multiple of 64, send an\n")]),
 ("c15-pending-late-v3", "C15", [(U3, "        *pending_frame = true;\n\n", ""), (U3, "        // If the total we sent was a multiple of 64, send an\n", "        *pending_frame = true;\n        // If the total we sent was a multiple of 64, send an\n")]),
 ("c15-zlp", "C15", U3, "if (out.len() & (64 - 1)) == 0", "if (out.len() & (128 - 1)) == 0"),
 ("c15-clear-early", "C15", U4, "        // If the total we sent was a multiple of 64, send an\n", "        *pending_frame = false;\n        // If the total we sent was a multiple of 64, send an\n"),
 ("c15-raw", "C15", U4, "        send_all::<D>(ep_in, buf, pending_frame, *timeout_ms_per_frame).await\n    }\n\n    async fn send_log_str", "        let mut no = false;\n        let _ = pending_frame;\n        send_all::<D>(ep_in, buf, &mut no, *timeout_ms_per_frame).await\n    }\n\n    async fn send_log_str"),
 ("c16-drain", "C16", U4, "                Ok(64) => {}\n", "                Ok(n) if n != 0 => {}\n"),
 ("c16-drain-v3", "C16", U3, "                Ok(64) => {}\n", "                Ok(n) if n != 0 => {}\n"),
 ("c18-seq1", "C18", U4, "        let ctr = *log_seq;\n        *log_seq = log_seq.wrapping_add(1);", "@2@        let ctr = *log_seq;\n        *log_seq = log_seq.saturating_add(1);"),
 ("c18-cont", "C18", U3, "        if len_used.len() != len_field.len() {", "        if len_used.len() + 1 < len_field.len() {"),
 ("c18-key4", "C18", U4, "VarKeyKind::Key4 => VarKey::Key4(LoggingTopic::TOPIC_KEY4),", "@1@VarKeyKind::Key4 => VarKey::Key8(LoggingTopic::TOPIC_KEY),"),
 ("c18-ch-key2", "C18", TC, "VarKeyKind::Key2 => VarKey::Key2(LoggingTopic::TOPIC_KEY2),", "@2@VarKeyKind::Key2 => VarKey::Key4(LoggingTopic::TOPIC_KEY4),"),
 # --- serial ---
 ("c17-fit", "C17", AC, "if (self.idx + take.len()) <= N {", "if (self.idx + take.len()) < N {"),
 ("c17-idx", "C17", AC, "                        Err(_) => FeedResult::DeserError(release),\n                    };\n                    self.idx = 0;", "                        Err(_) => return FeedResult::DeserError(release),\n                    };\n                    self.idx = 0;"),
 ("c17-lifo", "C17", SE, "self.pending.pop_front()", "self.pending.pop_back()"),
 ("c17-clear", "C17", SE, 'tracing::warn!("COBS formatting error");\n                        new_wind', 'tracing::warn!("COBS formatting error");\n                        let _ = new_wind;\n                        break \'cobs'),
]
