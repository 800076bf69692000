import chan, client, e2e, icd, nusb, rpc, schema, serial, server, usb, wire

CHECKS = {}
for _p in client.GEN:
    CHECKS[_p] = (lambda p: lambda c: client.run(c, p))(_p)
for _p in server.GEN:
    CHECKS[_p] = (lambda p: lambda c: server.run(c, p))(_p)
CHECKS.update({"C05": wire.c05, "C06": wire.c06, "C07": wire.c07, "C13": schema.c13, "C14": schema.c14,
               "C15": usb.c15, "C16": usb.c16, "C17": serial.c17, "C18": usb.c18, "C21": rpc.c21, "C23": nusb.c23, "C24": icd.c24, "C25": chan.c25, "C26": usb.c26, "C27": e2e.c27})

_T = "TLA+ specification of the client (HostClient.tla): TLC model checking; TLC-generated behaviours replayed into the real client and the recorded executions validated by TLC against the specification"
_N = ("Exhaustive for the specification within small bounds; the code is bound to it by thousands of replayed, "
      "TLC-validated executions on a deterministic runtime (public API only). Trusts tokio, maitake-sync, TLC and the "
      "harness's own frame coding; schedules are those of a single-threaded runtime plus bursts of simultaneous events.")
INFO = {p: (_T, _N) for p in client.GEN}
INFO.update({p: (_T.replace("client (HostClient.tla)", "server (Server.tla)").replace("real client", "real server"), _N) for p in server.GEN})
_TW = ("TLA+ specification of the wire format (Wire.tla): its laws model-checked with TLC over small alphabets; TLC-generated "
       "inputs run through the real code and every recorded result checked by TLC against the specification's operators")
_NW = ("Laws exhaustive for small alphabets; the code is compared with the specification on thousands of generated inputs per run "
       "(boundary-biased), not on all. Trusts TLC and the harness.")
INFO.update({p: (_TW, _NW) for p in ("C05", "C06", "C07")})
INFO["C13"] = (_T.replace("client (HostClient.tla)", "schema discovery (Schema.tla)").replace("real client", "real server and client"), _N)
INFO["C14"] = (_TW.replace("the wire format (Wire.tla)", "type lists (TypeSet.tla)").replace("over small alphabets", "for all small schema trees"), _NW)
_NU = ("Exhaustive for the specification within small bounds; the code (both embassy-usb versions) is bound to it by replayed, "
       "TLC-validated executions against a USB controller in software with a virtual clock. Trusts embassy-sync, embassy-time, "
       "TLC and the software controller; the packet size is the 64 bytes the constructors allocate.")
INFO["C15"] = (_T.replace("client (HostClient.tla)", "USB transmitter (UsbTx.tla)").replace("real client", "real USB transports"), _NU)
INFO["C16"] = (_T.replace("client (HostClient.tla)", "USB receiver (UsbRx.tla)").replace("real client", "real USB transports"), _NU)
INFO["C18"] = (_T.replace("client (HostClient.tla)", "device logging (Log.tla)").replace("real client", "real transports"), _NU)
INFO["C26"] = (_T.replace("client (HostClient.tla)", "USB transmitter and its clock (UsbTx.tla)").replace("real client", "real USB transports"), _NU)
INFO["C27"] = (_T.replace("client (HostClient.tla)", "USB link from client to device (Link.tla)").replace("real client", "real client joined by simulated USB to a real server on embassy-usb"),
               "Exhaustive for the specification within small bounds; the device is enumerated through its own descriptors, and the real raw_nusb client runs on a stand-in for the nusb crate joined packet by packet to the real embassy-usb stack. Trusts TLC, tokio, embassy-usb and the stand-in controllers; time does not pass, so no send times out.")
INFO["C17"] = (_T.replace("client (HostClient.tla)", "serial framing (Cobs.tla, Serial.tla)").replace("real client", "real accumulator and a client on a pseudo terminal"),
               "Chunking and coding laws exhaustive over a small alphabet with short blocks; the accumulator is compared byte for byte on generated streams and chunkings, the serial client end to end on a pseudo terminal. Trusts TLC, tokio-serial and the kernel's pseudo terminals.")
INFO["C21"] = (_T.replace("client (HostClient.tla)", "client and server together (Rpc.tla, refining RpcAbs.tla)").replace("real client", "real client joined to a real server")
               + "; multi-threaded runs validated against RpcAbs.tla", _N.replace("schedules are those of a single-threaded runtime plus bursts of simultaneous events", "multi-threaded schedules are sampled"))
INFO["C23"] = (_T.replace("client (HostClient.tla)", "USB host transport (Nusb.tla)").replace("real client", "real client on a simulated USB bus"),
               "Exhaustive for the specification within small bounds; the real raw_nusb transport is compiled against a stand-in for the nusb crate whose host controller the scripts control. Trusts TLC, tokio and the stand-in; Windows' fixed interface 0 is not covered.")
INFO["C24"] = (_TW.replace("the wire format (Wire.tla)", "interface declarations (Icd.tla)").replace("inputs run through the real code", "declarations compiled with the real macros"),
               "FNV-1a and the type encoding are specified byte for byte in TLA+; a hundred generated sets of declarations are compiled and compared per quick run. Trusts TLC, rustc and the schema derive of postcard-schema.")
INFO["C25"] = (_T.replace("client (HostClient.tla)", "channel transport (Chan.tla)").replace("real client", "real transport, bare and under a running server"), _N)
NA = {}
