# Wire format of the ComfoAir protocol (independent of the code).

def CK(c, d) = (c + len(d) + SUM(d) + 173) % 256
def ENC(c, d) = seq(0, c, len(d)) ++ ESC(d) ++ seq(CK(c, d))
def BODY(f) = UE(f[3:len(f)-1])
def VALID(f) = len(f) >= 4 && f[2] == len(BODY(f)) && f[len(f)-1] == CK(f[1], BODY(f))

func libcomfo.MarshalPacket(in) (out, err)
  ensures [C02] "rejects exactly payloads over 255 bytes": err != nil <==> len(in.Data) > 255
  ensures [C02,C01] "wire form": err == nil ==> bytes(out) == ENC(in.Command, bytes(in.Data))
  ensures [C02] "nothing returned with an error": err != nil ==> len(out) == 0
  ensures [C02] "payload left alone": unchanged(bytes(in.Data))

func libcomfo.UnmarshalPacket(in) (out, err)
  ensures [C03] "accepts exactly valid frames": err == nil <==> VALID(bytes(in))
  ensures [C03,C01] "payload": err == nil ==> bytes(out.Data) == BODY(bytes(in))
  ensures [C03,C01] "command": err == nil ==> out.Command == in[1]
  ensures [C03] "no packet with an error": err != nil ==> iszero(out)
  ensures [C03] "frame left alone": unchanged(bytes(in))

# ---- replies

def ACK = seq(0x07, 0xF3)
def START = seq(0x07, 0xF0)
def END = seq(0x07, 0x0F)

# a complete, well-formed reply
def REPLY(c, d) = ACK ++ START ++ ENC(c, d) ++ END

# the stream begins with a reply that carries exactly this packet
def ACCEPTED(s, out) = exists F: prefix(ACK ++ START ++ F ++ END, s) && VALID(F) && out.Command == F[1] && bytes(out.Data) == BODY(F)

func libcomfo.ReadPacket(conn, timer, expect) (out, err)
  requires [C08] "the timer is new and runs for at most a second": timer_ok(timer)
  ensures [C05] "a reply is accepted only if it is well-formed": err == nil && expect ==> ACCEPTED(stream(conn), out)
  ensures [C05] "an acknowledge is accepted only if it comes first": err == nil && !expect ==> prefix(ACK, stream(conn)) && iszero(out)
  ensures [C05] "no packet with an error": err != nil ==> iszero(out)
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  behaviour exact(C: byte, P: bytes, Z: bytes)
    assumes expect && len(P) <= 255 && stream(conn) == REPLY(C, P) ++ Z
    ensures [C04] "a well-formed reply is received": !timedout() ==> err == nil
    ensures [C04] "it is received intact": err == nil ==> out.Command == C && bytes(out.Data) == P
  behaviour acked(Z: bytes)
    assumes !expect && stream(conn) == ACK ++ Z
    ensures [C04] "an acknowledge suffices": !timedout() ==> err == nil

# C01: what MarshalPacket guarantees (C02) and what UnmarshalPacket accepts (C03) fit together.
lemma roundtrip(c: byte, d: bytes) := [C01] "a frame decodes to what was encoded": len(d) <= 255 ==> VALID(ENC(c, d)) && BODY(ENC(c, d)) == d && ENC(c, d)[1] == c

# ---- exchanges

def REQ(c, d) = START ++ ENC(c, d) ++ END
# the reply an exchange waits for: an acknowledge, or a frame of the given command
def ANSWER(s, c, out) = exists F: prefix(ACK ++ START ++ F ++ END, s) && VALID(F) && F[1] == c && out.Command == c && bytes(out.Data) == BODY(F)

func libcomfo.QueryPacket(in, conn) (out, err)
  ensures [C06] "a request that cannot be encoded writes nothing": len(in.Data) > 255 ==> err != nil && len(tx(conn)) == 0
  ensures [C06] "one request, then at most one acknowledge": len(in.Data) <= 255 ==> prefix(tx(conn), REQ(in.Command, bytes(in.Data)) ++ ACK)
  ensures [C06] "the reply is read after the whole request was written": reads(conn) > 0 ==> readtx(conn) == REQ(in.Command, bytes(in.Data))
  ensures [C06] "only a valid reply is acknowledged": in.Expect && len(tx(conn)) > len(REQ(in.Command, bytes(in.Data))) ==> ANSWER(stream(conn), (in.Command + 1) % 256, out)
  ensures [C06] "only an acknowledge is acknowledged": !in.Expect && len(tx(conn)) > len(REQ(in.Command, bytes(in.Data))) ==> prefix(ACK, stream(conn)) && iszero(out)
  ensures [C06,C05,C09,C11] "success means everything was written": err == nil ==> len(in.Data) <= 255 && tx(conn) == REQ(in.Command, bytes(in.Data)) ++ ACK && !wfail(conn)
  ensures [C06,C05,C11] "success means a reply was received": err == nil && in.Expect ==> ANSWER(stream(conn), (in.Command + 1) % 256, out)
  ensures [C06,C05,C09] "success means an acknowledge was received": err == nil && !in.Expect ==> prefix(ACK, stream(conn)) && iszero(out)
  ensures [C06] "a complete exchange is a success": len(in.Data) <= 255 && tx(conn) == REQ(in.Command, bytes(in.Data)) ++ ACK && !wfail(conn) ==> err == nil
  ensures [C07] "all I/O happens while one process-wide lock is held": exclusive_io(conn)
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  ensures [C06] "payload left alone": unchanged(bytes(in.Data))
  behaviour exact(P: bytes, Z: bytes)
    use libcomfo.ReadPacket.exact((in.Command + 1) % 256, P, Z)
    assumes in.Expect && len(in.Data) <= 255 && len(P) <= 255 && stream(conn) == REPLY((in.Command + 1) % 256, P) ++ Z
    ensures [C04,C06] "a well-formed reply makes the exchange succeed": !timedout() && !wfail(conn) ==> err == nil
    ensures [C04,C06] "the payload of the reply is returned": err == nil ==> bytes(out.Data) == P
  behaviour acked(Z: bytes)
    use libcomfo.ReadPacket.acked(Z)
    assumes !in.Expect && len(in.Data) <= 255 && stream(conn) == ACK ++ Z
    ensures [C04,C06] "an acknowledge makes the exchange succeed": !timedout() && !wfail(conn) ==> err == nil

# ---- payloads

def BE16(p, i) = p[i] * 256 + p[i+1]
def BE24(p, i) = p[i] * 65536 + p[i+1] * 256 + p[i+2]
def TEMP(b) = b / 2 - 20
def RPM(n) = 1875000 / n

def IS_TEMPS(v, p) = len(p) == 9 && v.Comfort == TEMP(p[0]) && v.OutsideAir == TEMP(p[1]) && v.SupplyAir == TEMP(p[2]) && v.InsideAir == TEMP(p[3]) && v.ExhaustAir == TEMP(p[4]) && v.GeoHeat == TEMP(p[6]) && v.Reheating == TEMP(p[7]) && v.KitchenHood == TEMP(p[8])
def IS_BYPASS(v, p) = len(p) == 7 && v.Factor == p[2] && v.Level == p[3] && v.Correction == p[4] && (v.SummerMode <==> p[6] == 1)
def IS_HOURS(v, p) = len(p) == 20 && v.FanAway == BE24(p, 0) && v.FanLow == BE24(p, 3) && v.FanMid == BE24(p, 6) && v.FanHigh == BE24(p, 17) && v.FrostProtect == BE16(p, 9) && v.Reheating == BE16(p, 11) && v.BypassOpen == BE16(p, 13) && v.Filter == BE16(p, 15)
def OK_FANS(p) = len(p) == 6 && BE16(p, 2) > 0 && BE16(p, 4) > 0 && RPM(BE16(p, 2)) <= 65535 && RPM(BE16(p, 4)) <= 65535
def IS_FANS(v, p) = OK_FANS(p) && v.InPercent == p[0] && v.OutPercent == p[1] && v.InSpeed == RPM(BE16(p, 2)) && v.OutSpeed == RPM(BE16(p, 4))
def IS_PROFILES(v, p) = len(p) == 14 && v.OutAway == p[0] && v.OutLow == p[1] && v.OutMid == p[2] && v.OutHigh == p[10] && v.InAway == p[3] && v.InLow == p[4] && v.InMid == p[5] && v.InHigh == p[11] && (v.InFanActive <==> p[9] == 1) && v.CurrentOut == p[6] && v.CurrentIn == p[7] && v.CurrentMode == p[8]
def IS_ERRORS(v, p) = len(p) == 17 && (v.Filter <==> p[8] == 1)
def IS_BOOT(v, p) = len(p) == 13 && v.MajorVersion == p[0] && v.MinorVersion == p[1] && v.BetaVersion == p[2] && bytes(v.DeviceName) == TRIM(p[3:13])

func libcomfo.(*Temps).UnmarshalBinary(v, in) (err)
  modifies v
  ensures [C12] "fixed length": err == nil <==> len(in) == 9
  ensures [C12] "fields": err == nil ==> IS_TEMPS(deref(v), bytes(in))
  ensures [C12] "left alone on error": err != nil ==> unchanged(deref(v))

func libcomfo.(*Bypass).UnmarshalBinary(v, in) (err)
  modifies v
  ensures [C12] "fixed length": err == nil <==> len(in) == 7
  ensures [C12] "fields": err == nil ==> IS_BYPASS(deref(v), bytes(in))
  ensures [C12] "left alone on error": err != nil ==> unchanged(deref(v))

func libcomfo.(*Hours).UnmarshalBinary(v, in) (err)
  modifies v
  ensures [C12] "fixed length": err == nil <==> len(in) == 20
  ensures [C12] "fields": err == nil ==> IS_HOURS(deref(v), bytes(in))
  ensures [C12] "left alone on error": err != nil ==> unchanged(deref(v))

func libcomfo.(*Fans).UnmarshalBinary(v, in) (err)
  modifies v
  ensures [C12] "fixed length and representable speeds": err == nil <==> OK_FANS(bytes(in))
  ensures [C12] "fields": err == nil ==> IS_FANS(deref(v), bytes(in))
  ensures [C12] "left alone on error": err != nil ==> unchanged(deref(v))

func libcomfo.(*FanProfiles).UnmarshalBinary(v, in) (err)
  modifies v
  ensures [C12] "fixed length": err == nil <==> len(in) == 14
  ensures [C12] "fields": err == nil ==> IS_PROFILES(deref(v), bytes(in))
  ensures [C12] "left alone on error": err != nil ==> unchanged(deref(v))

func libcomfo.(*Errors).UnmarshalBinary(v, in) (err)
  modifies v
  ensures [C12] "fixed length": err == nil <==> len(in) == 17
  ensures [C12] "fields": err == nil ==> IS_ERRORS(deref(v), bytes(in))
  ensures [C12] "left alone on error": err != nil ==> unchanged(deref(v))

func libcomfo.(*BootInfo).UnmarshalBinary(v, in) (err)
  modifies v
  ensures [C12] "fixed length": err == nil <==> len(in) == 13
  ensures [C12] "fields": err == nil ==> IS_BOOT(deref(v), bytes(in))
  ensures [C12] "left alone on error": err != nil ==> unchanged(deref(v))

func libcomfo.(*temperature).UnmarshalBinary(t, in)
  modifies t
  ensures [C13] "decodes to half the byte minus 20": deref(t) == TEMP(in)

func libcomfo.temperature.MarshalBinary(t) (out, err)
  ensures [C13] "exactly the representable temperatures are accepted": err == nil <==> t >= f32(0-20) && t < f32(108)
  ensures [C13] "encodes to twice the temperature above -20": err == nil ==> out == trunc((t + f32(20)) * f32(2))
  ensures [C13] "never wraps": err == nil ==> trunc((t + f32(20)) * f32(2)) >= 0 && trunc((t + f32(20)) * f32(2)) <= 255
  ensures [C13] "zero with an error": err != nil ==> out == 0

lemma temps(k: int) := [C13] "whole degrees survive a round trip": 0-20 <= k && k < 108 ==> TEMP((k + 20) * 2) == k && (k + 20) * 2 >= 0 && (k + 20) * 2 <= 255

# ---- queries: one exchange each, nothing beside it

func libcomfo.GetTemperatures(conn) (v, err)
  ensures [C11,C06] "sends exactly this query": prefix(tx(conn), REQ(0xD1, seq()) ++ ACK)
  ensures [C11] "success means the query was sent and acknowledged": err == nil ==> tx(conn) == REQ(0xD1, seq()) ++ ACK
  ensures [C11,C05] "returns what the unit reported": err == nil ==> exists F: prefix(ACK ++ START ++ F ++ END, stream(conn)) && VALID(F) && F[1] == 0xd2 && IS_TEMPS(v, BODY(F))
  ensures [C11,C05] "zero value with an error": err != nil ==> iszero(v)
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  behaviour exact(P: bytes, Z: bytes)
    use libcomfo.QueryPacket.exact(P, Z)
    assumes len(P) == 9 && stream(conn) == REPLY(0xd2, P) ++ Z
    ensures [C04,C11] "a well-formed reply is returned": !timedout() && !wfail(conn) ==> err == nil
    ensures [C04,C11] "every field comes from it": err == nil ==> IS_TEMPS(v, P)

func libcomfo.GetBypass(conn) (v, err)
  ensures [C11,C06] "sends exactly this query": prefix(tx(conn), REQ(0xDF, seq()) ++ ACK)
  ensures [C11] "success means the query was sent and acknowledged": err == nil ==> tx(conn) == REQ(0xDF, seq()) ++ ACK
  ensures [C11,C05] "returns what the unit reported": err == nil ==> exists F: prefix(ACK ++ START ++ F ++ END, stream(conn)) && VALID(F) && F[1] == 0xe0 && IS_BYPASS(v, BODY(F))
  ensures [C11,C05] "zero value with an error": err != nil ==> iszero(v)
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  behaviour exact(P: bytes, Z: bytes)
    use libcomfo.QueryPacket.exact(P, Z)
    assumes len(P) == 7 && stream(conn) == REPLY(0xe0, P) ++ Z
    ensures [C04,C11] "a well-formed reply is returned": !timedout() && !wfail(conn) ==> err == nil
    ensures [C04,C11] "every field comes from it": err == nil ==> IS_BYPASS(v, P)

func libcomfo.GetFans(conn) (v, err)
  ensures [C11,C06] "sends exactly this query": prefix(tx(conn), REQ(0x0B, seq()) ++ ACK)
  ensures [C11] "success means the query was sent and acknowledged": err == nil ==> tx(conn) == REQ(0x0B, seq()) ++ ACK
  ensures [C11,C05] "returns what the unit reported": err == nil ==> exists F: prefix(ACK ++ START ++ F ++ END, stream(conn)) && VALID(F) && F[1] == 0x0c && IS_FANS(v, BODY(F))
  ensures [C11,C05] "zero value with an error": err != nil ==> iszero(v)
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  behaviour exact(P: bytes, Z: bytes)
    use libcomfo.QueryPacket.exact(P, Z)
    assumes OK_FANS(P) && stream(conn) == REPLY(0x0c, P) ++ Z
    ensures [C04,C11] "a well-formed reply is returned": !timedout() && !wfail(conn) ==> err == nil
    ensures [C04,C11] "every field comes from it": err == nil ==> IS_FANS(v, P)

func libcomfo.GetHours(conn) (v, err)
  ensures [C11,C06] "sends exactly this query": prefix(tx(conn), REQ(0xDD, seq()) ++ ACK)
  ensures [C11] "success means the query was sent and acknowledged": err == nil ==> tx(conn) == REQ(0xDD, seq()) ++ ACK
  ensures [C11,C05] "returns what the unit reported": err == nil ==> exists F: prefix(ACK ++ START ++ F ++ END, stream(conn)) && VALID(F) && F[1] == 0xde && IS_HOURS(v, BODY(F))
  ensures [C11,C05] "zero value with an error": err != nil ==> iszero(v)
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  behaviour exact(P: bytes, Z: bytes)
    use libcomfo.QueryPacket.exact(P, Z)
    assumes len(P) == 20 && stream(conn) == REPLY(0xde, P) ++ Z
    ensures [C04,C11] "a well-formed reply is returned": !timedout() && !wfail(conn) ==> err == nil
    ensures [C04,C11] "every field comes from it": err == nil ==> IS_HOURS(v, P)

func libcomfo.GetBootloader(conn) (v, err)
  ensures [C11,C06] "sends exactly this query": prefix(tx(conn), REQ(0x67, seq()) ++ ACK)
  ensures [C11] "success means the query was sent and acknowledged": err == nil ==> tx(conn) == REQ(0x67, seq()) ++ ACK
  ensures [C11,C05] "returns what the unit reported": err == nil ==> exists F: prefix(ACK ++ START ++ F ++ END, stream(conn)) && VALID(F) && F[1] == 0x68 && IS_BOOT(v, BODY(F))
  ensures [C11,C05] "zero value with an error": err != nil ==> iszero(v)
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  behaviour exact(P: bytes, Z: bytes)
    use libcomfo.QueryPacket.exact(P, Z)
    assumes len(P) == 13 && stream(conn) == REPLY(0x68, P) ++ Z
    ensures [C04,C11] "a well-formed reply is returned": !timedout() && !wfail(conn) ==> err == nil
    ensures [C04,C11] "every field comes from it": err == nil ==> IS_BOOT(v, P)

func libcomfo.GetFirmware(conn) (v, err)
  ensures [C11,C06] "sends exactly this query": prefix(tx(conn), REQ(0x69, seq()) ++ ACK)
  ensures [C11] "success means the query was sent and acknowledged": err == nil ==> tx(conn) == REQ(0x69, seq()) ++ ACK
  ensures [C11,C05] "returns what the unit reported": err == nil ==> exists F: prefix(ACK ++ START ++ F ++ END, stream(conn)) && VALID(F) && F[1] == 0x6a && IS_BOOT(v, BODY(F))
  ensures [C11,C05] "zero value with an error": err != nil ==> iszero(v)
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  behaviour exact(P: bytes, Z: bytes)
    use libcomfo.QueryPacket.exact(P, Z)
    assumes len(P) == 13 && stream(conn) == REPLY(0x6a, P) ++ Z
    ensures [C04,C11] "a well-formed reply is returned": !timedout() && !wfail(conn) ==> err == nil
    ensures [C04,C11] "every field comes from it": err == nil ==> IS_BOOT(v, P)

func libcomfo.GetFanProfiles(conn) (v, err)
  ensures [C11,C06] "sends exactly this query": prefix(tx(conn), REQ(0xCD, seq()) ++ ACK)
  ensures [C11] "success means the query was sent and acknowledged": err == nil ==> tx(conn) == REQ(0xCD, seq()) ++ ACK
  ensures [C11,C05] "returns what the unit reported": err == nil ==> exists F: prefix(ACK ++ START ++ F ++ END, stream(conn)) && VALID(F) && F[1] == 0xce && IS_PROFILES(v, BODY(F))
  ensures [C11,C05] "zero value with an error": err != nil ==> iszero(v)
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  behaviour exact(P: bytes, Z: bytes)
    use libcomfo.QueryPacket.exact(P, Z)
    assumes len(P) == 14 && stream(conn) == REPLY(0xce, P) ++ Z
    ensures [C04,C11] "a well-formed reply is returned": !timedout() && !wfail(conn) ==> err == nil
    ensures [C04,C11] "every field comes from it": err == nil ==> IS_PROFILES(v, P)

func libcomfo.GetErrors(conn) (v, err)
  ensures [C11,C06] "sends exactly this query": prefix(tx(conn), REQ(0xD9, seq()) ++ ACK)
  ensures [C11] "success means the query was sent and acknowledged": err == nil ==> tx(conn) == REQ(0xD9, seq()) ++ ACK
  ensures [C11,C05] "returns what the unit reported": err == nil ==> exists F: prefix(ACK ++ START ++ F ++ END, stream(conn)) && VALID(F) && F[1] == 0xda && IS_ERRORS(v, BODY(F))
  ensures [C11,C05] "zero value with an error": err != nil ==> iszero(v)
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  ensures [C08] "a timeout is reported": timedout() ==> err != nil && timeout_error(err)
  behaviour exact(P: bytes, Z: bytes)
    use libcomfo.QueryPacket.exact(P, Z)
    assumes len(P) == 17 && stream(conn) == REPLY(0xda, P) ++ Z
    ensures [C04,C11] "a well-formed reply is returned": !timedout() && !wfail(conn) ==> err == nil
    ensures [C04,C11] "every field comes from it": err == nil ==> IS_ERRORS(v, P)

# ---- set commands

def SETS(c, d) = REQ(c, d) ++ ACK

func libcomfo.SetSpeed(val, conn) (err)
  ensures [C09] "other speeds are refused": val > 4 ==> err != nil && len(tx(conn)) == 0
  ensures [C09] "sends exactly this speed": val <= 4 ==> prefix(tx(conn), SETS(0x99, seq(val)))
  ensures [C09] "success means the unit acknowledged": err == nil ==> tx(conn) == SETS(0x99, seq(val)) && prefix(ACK, stream(conn))
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  behaviour acked(Z: bytes)
    use libcomfo.QueryPacket.acked(Z)
    assumes val <= 4 && stream(conn) == ACK ++ Z
    ensures [C09] "an acknowledge means success": !timedout() && !wfail(conn) ==> err == nil

func libcomfo.SetComfort(val, conn) (err)
  ensures [C09,C13,C18] "other temperatures are refused": val > 107 ==> err != nil && len(tx(conn)) == 0
  ensures [C09,C13] "sends exactly this temperature": val <= 107 ==> prefix(tx(conn), SETS(0xD3, seq((val + 20) * 2)))
  ensures [C09] "success means the unit acknowledged": err == nil ==> tx(conn) == SETS(0xD3, seq((val + 20) * 2)) && prefix(ACK, stream(conn))
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  behaviour acked(Z: bytes)
    use libcomfo.QueryPacket.acked(Z)
    assumes val <= 107 && stream(conn) == ACK ++ Z
    ensures [C09] "an acknowledge means success": !timedout() && !wfail(conn) ==> err == nil

def PROFILES(p) = seq(p.OutAway, p.OutLow, p.OutMid, p.InAway, p.InLow, p.InMid, p.OutHigh, p.InHigh)

func libcomfo.SetFanProfiles(fp, conn) (err)
  events libcomfo.QueryPacket
  ensures [C09] "sends exactly these profiles": prefix(tx(conn), SETS(0xCF, PROFILES(old(deref(fp)))))
  ensures [C09] "success means the unit acknowledged": err == nil ==> tx(conn) == SETS(0xCF, PROFILES(old(deref(fp)))) && prefix(ACK, stream(conn))
  ensures [C09] "the profiles are left alone": unchanged(deref(fp))
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0
  ensures [C10] "excluded while one profile is changed": n("libcomfo.QueryPacket") <= 1 && (n("libcomfo.QueryPacket") == 1 ==> heldlockof("libcomfo.QueryPacket", 0, "libcomfo.SetFanProfile"))
  behaviour acked(Z: bytes)
    use libcomfo.QueryPacket.acked(Z)
    assumes stream(conn) == ACK ++ Z
    ensures [C09] "an acknowledge means success": !timedout() && !wfail(conn) ==> err == nil

# the payload a changed profile is written back with
def CHANGED(p, m, s) = seq(if m == 0 then s else p[0], if m == 1 then s else p[1], if m == 2 then s else p[2], if m == 0 then s else p[3], if m == 1 then s else p[4], if m == 2 then s else p[5], if m == 3 then s else p[10], if m == 3 then s else p[11])

func libcomfo.SetFanProfile(mode, speed, conn) (err)
  events libcomfo.QueryPacket
  ensures [C10] "other arguments are refused": mode > 3 || speed > 100 ==> err != nil && len(tx(conn)) == 0
  ensures [C10] "reads the profiles first": prefix(tx(conn), SETS(0xCD, seq())) || prefix(SETS(0xCD, seq()), tx(conn))
  ensures [C10] "a failed read sends no change": n("libcomfo.QueryPacket") >= 1 && err != nil && n("libcomfo.QueryPacket") < 2 ==> prefix(tx(conn), SETS(0xCD, seq()))
  ensures [C10] "at most one change is sent": n("libcomfo.QueryPacket") <= 2
  ensures [C10] "the change replaces only this profile": n("libcomfo.QueryPacket") == 2 ==> exists F: prefix(ACK ++ START ++ F ++ END, stream(conn)) && VALID(F) && F[1] == 0xCE && len(BODY(F)) == 14 && prefix(tx(conn), SETS(0xCD, seq()) ++ SETS(0xCF, CHANGED(BODY(F), mode, speed)))
  ensures [C10] "success means the change was acknowledged": err == nil ==> n("libcomfo.QueryPacket") == 2 && mode <= 3 && speed <= 100 && ret("libcomfo.QueryPacket", 0, 1) == nil
  ensures [C10] "read and write are one transaction": n("libcomfo.QueryPacket") == 2 ==> heldset("libcomfo.QueryPacket", 1, "libcomfo.QueryPacket", 0) >= 1
  ensures [C07] "nothing is sent or received outside an exchange": directio(conn) == 0

auto libcomfo C14
