"""Hand-written mutants for the channel transport, discovery's primitives and long waits."""
TC = 'server/impls/test_channels.rs'
MUTANTS = [
 ('c25-rx-stop', 'C25', [(TC, '        settings.rx.set_stopper(stopper.clone());\n', '')]),
 ('c25-tx-stop', 'C25', [(TC, '        settings.tx.set_stopper(stopper.clone());\n', '')]),
 ('c25-large-closed', 'C25', [(TC, '.ok_or(ChannelWireRxError::MessageTooLarge)?', '.ok_or(ChannelWireRxError::ChannelClosed)?')]),
 ('c25-large-kind', 'C25', [(TC, 'ChannelWireRxError::MessageTooLarge => WireRxErrorKind::ReceivedMessageTooLarge', 'ChannelWireRxError::MessageTooLarge => WireRxErrorKind::ConnectionClosed')]),
 ('c25-closed-other', 'C25', [(TC, 'ChannelWireRxError::ChannelClosed => WireRxErrorKind::ConnectionClosed', 'ChannelWireRxError::ChannelClosed => WireRxErrorKind::Other')]),
 ('c25-txclosed-other', 'C25', [(TC, 'ChannelWireTxError::ChannelClosed => WireTxErrorKind::ConnectionClosed', 'ChannelWireTxError::ChannelClosed => WireTxErrorKind::Other')]),
 ('c25-tx-ok', 'C25', [(TC, 'Err(_) => Err(ChannelWireTxError::ChannelClosed)', 'Err(_) => Ok(())')]),
 ('c25-off-by-one', 'C25', [(TC, '                let out = buf\n', '                let cap = buf.len() - 1;\n                let out = buf[..cap]\n')]),
 ('c25-truncate', 'C25', [(TC, '                let out = buf\n                    .get_mut(..msg.len())\n                    .ok_or(ChannelWireRxError::MessageTooLarge)?;\n                out.copy_from_slice(&msg);', '                let n = msg.len().min(buf.len());\n                let out = &mut buf[..n];\n                out.copy_from_slice(&msg[..n]);')]),
 ('c25-drop-full', 'C25', [(TC, 'res = self.tx.send(msg) => {', 'res = async { self.tx.try_send(msg).or_else(|e| match e { mpsc::error::TrySendError::Full(_) => Ok(()), e => Err(e) }) } => {')]),
 ('c25-spawn-send', 'C25', [(TC, 'res = self.tx.send(msg) => {', 'res = { let tx = self.tx.clone(); async move { tokio::spawn(async move { tx.send(msg).await }).await.unwrap() } } => {')]),
 ('c10-cap', 'C10', [('host_client/util.rs', 'sleep(host_ctx.subscription_timeout)', 'sleep(host_ctx.subscription_timeout.min(Duration::from_millis(50)))')]),
 ('c10-cap-min', 'C10', [('host_client/util.rs', 'sleep(host_ctx.subscription_timeout)', 'sleep(host_ctx.subscription_timeout.max(Duration::from_millis(10)))')]),
 ('c13-noi128', 'C13', [('host_client/mod.rs', '        me.add_type(OwnedNamedType::from(<i128 as Schema>::SCHEMA));\n', '')]),
 ('c13-bytes', 'C13', [('host_client/mod.rs', 'ty: OwnedDataModelType::ByteArray,', 'ty: OwnedDataModelType::Unit,')]),
 ('c24-bare', 'C24', [('macros.rs', '        endpoint!($tyname, $req, $resp, stringify!($tyname));', '        endpoint!($tyname, $req, $resp, concat!("/", stringify!($tyname)));')]),
 ('c24-bare-t', 'C24', [('macros.rs', '        topic!($tyname, $msg, stringify!($tyname));', '        ')]),
 ('c11-capped', 'C11', [('host_client/mod.rs', 'broadcast::channel(depth)', 'broadcast::channel(depth.min(4))')]),
 ('c10-depth-capped', 'C10', [('host_client/mod.rs', 'mpsc::channel(depth)', 'mpsc::channel(depth.min(4))')]),
 ('c12-depth-capped', 'C12', [('host_client/mod.rs', 'mpsc::channel(config.outgoing_depth)', 'mpsc::channel(config.outgoing_depth.min(4))')]),
]
