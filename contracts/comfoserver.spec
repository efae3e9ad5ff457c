# The server. Calls of the library are events here: what the library does is stated in libcomfo.spec.
# The first time a function takes a cache's lock it finds the value old(...) has; a later time the cache
# may have been refreshed in between.

# ---- refreshing (C19)

def STALE = 4500000000

func comfoserver.(*BootInfoCache).Update(c, force) (err)
  modifies c
  events libcomfo.GetBootloader, libcomfo.QueryPacket
  ensures [C19] "asks the unit for exactly this data": n("libcomfo.QueryPacket") == 0 && n("libcomfo.GetBootloader") <= 1 && (n("libcomfo.GetBootloader") == 1 ==> arg("libcomfo.GetBootloader", 1, 0) == comfoserver.comfoConn)
  ensures [C19] "always asks when forced": force ==> n("libcomfo.GetBootloader") == 1
  ensures [C19] "asks unforced only if the reading is old": !force && n("libcomfo.GetBootloader") == 1 ==> at("libcomfo.GetBootloader", 1) - old(c.LastUpdated) > STALE
  ensures [C19] "asks unforced if the reading is old": start() - old(c.LastUpdated) > STALE ==> n("libcomfo.GetBootloader") == 1
  ensures [C19] "stores the complete reading": n("libcomfo.GetBootloader") == 1 && ret("libcomfo.GetBootloader", 1, 1) == nil ==> err == nil && same(c.BootInfo, ret("libcomfo.GetBootloader", 1, 0))
  ensures [C19] "the timestamp is from the refresh": n("libcomfo.GetBootloader") == 1 && ret("libcomfo.GetBootloader", 1, 1) == nil ==> start() <= c.LastUpdated && c.LastUpdated <= now()
  ensures [C19] "a failed query changes nothing and is reported": n("libcomfo.GetBootloader") == 1 && ret("libcomfo.GetBootloader", 1, 1) != nil ==> err != nil && unchanged(deref(c))
  ensures [C19] "without a query nothing changes": n("libcomfo.GetBootloader") == 0 ==> err == nil && unchanged(deref(c))

func comfoserver.(*BypassCache).Update(c, force) (err)
  modifies c
  events libcomfo.GetBypass, libcomfo.QueryPacket
  ensures [C19] "asks the unit for exactly this data": n("libcomfo.QueryPacket") == 0 && n("libcomfo.GetBypass") <= 1 && (n("libcomfo.GetBypass") == 1 ==> arg("libcomfo.GetBypass", 1, 0) == comfoserver.comfoConn)
  ensures [C19] "always asks when forced": force ==> n("libcomfo.GetBypass") == 1
  ensures [C19] "asks unforced only if the reading is old": !force && n("libcomfo.GetBypass") == 1 ==> at("libcomfo.GetBypass", 1) - old(c.LastUpdated) > STALE
  ensures [C19] "asks unforced if the reading is old": start() - old(c.LastUpdated) > STALE ==> n("libcomfo.GetBypass") == 1
  ensures [C19] "stores the complete reading": n("libcomfo.GetBypass") == 1 && ret("libcomfo.GetBypass", 1, 1) == nil ==> err == nil && same(c.Bypass, ret("libcomfo.GetBypass", 1, 0))
  ensures [C19] "the timestamp is from the refresh": n("libcomfo.GetBypass") == 1 && ret("libcomfo.GetBypass", 1, 1) == nil ==> start() <= c.LastUpdated && c.LastUpdated <= now()
  ensures [C19] "a failed query changes nothing and is reported": n("libcomfo.GetBypass") == 1 && ret("libcomfo.GetBypass", 1, 1) != nil ==> err != nil && unchanged(deref(c))
  ensures [C19] "without a query nothing changes": n("libcomfo.GetBypass") == 0 ==> err == nil && unchanged(deref(c))

func comfoserver.(*TempCache).Update(c, force) (err)
  modifies c
  events libcomfo.GetTemperatures, libcomfo.QueryPacket
  ensures [C19] "asks the unit for exactly this data": n("libcomfo.QueryPacket") == 0 && n("libcomfo.GetTemperatures") <= 1 && (n("libcomfo.GetTemperatures") == 1 ==> arg("libcomfo.GetTemperatures", 1, 0) == comfoserver.comfoConn)
  ensures [C19] "always asks when forced": force ==> n("libcomfo.GetTemperatures") == 1
  ensures [C19] "asks unforced only if the reading is old": !force && n("libcomfo.GetTemperatures") == 1 ==> at("libcomfo.GetTemperatures", 1) - old(c.LastUpdated) > STALE
  ensures [C19] "asks unforced if the reading is old": start() - old(c.LastUpdated) > STALE ==> n("libcomfo.GetTemperatures") == 1
  ensures [C19] "stores the complete reading": n("libcomfo.GetTemperatures") == 1 && ret("libcomfo.GetTemperatures", 1, 1) == nil ==> err == nil && same(c.Temps, ret("libcomfo.GetTemperatures", 1, 0))
  ensures [C19] "the timestamp is from the refresh": n("libcomfo.GetTemperatures") == 1 && ret("libcomfo.GetTemperatures", 1, 1) == nil ==> start() <= c.LastUpdated && c.LastUpdated <= now()
  ensures [C19] "a failed query changes nothing and is reported": n("libcomfo.GetTemperatures") == 1 && ret("libcomfo.GetTemperatures", 1, 1) != nil ==> err != nil && unchanged(deref(c))
  ensures [C19] "without a query nothing changes": n("libcomfo.GetTemperatures") == 0 ==> err == nil && unchanged(deref(c))

func comfoserver.(*FanCache).Update(c, force) (err)
  modifies c
  events libcomfo.GetFans, libcomfo.QueryPacket
  ensures [C19] "asks the unit for exactly this data": n("libcomfo.QueryPacket") == 0 && n("libcomfo.GetFans") <= 1 && (n("libcomfo.GetFans") == 1 ==> arg("libcomfo.GetFans", 1, 0) == comfoserver.comfoConn)
  ensures [C19] "always asks when forced": force ==> n("libcomfo.GetFans") == 1
  ensures [C19] "asks unforced only if the reading is old": !force && n("libcomfo.GetFans") == 1 ==> at("libcomfo.GetFans", 1) - old(c.LastUpdated) > STALE
  ensures [C19] "asks unforced if the reading is old": start() - old(c.LastUpdated) > STALE ==> n("libcomfo.GetFans") == 1
  ensures [C19] "stores the complete reading": n("libcomfo.GetFans") == 1 && ret("libcomfo.GetFans", 1, 1) == nil ==> err == nil && same(c.Fans, ret("libcomfo.GetFans", 1, 0))
  ensures [C19] "the timestamp is from the refresh": n("libcomfo.GetFans") == 1 && ret("libcomfo.GetFans", 1, 1) == nil ==> start() <= c.LastUpdated && c.LastUpdated <= now()
  ensures [C19] "a failed query changes nothing and is reported": n("libcomfo.GetFans") == 1 && ret("libcomfo.GetFans", 1, 1) != nil ==> err != nil && unchanged(deref(c))
  ensures [C19] "without a query nothing changes": n("libcomfo.GetFans") == 0 ==> err == nil && unchanged(deref(c))

func comfoserver.(*FanProfilesCache).Update(c, force) (err)
  modifies c
  events libcomfo.GetFanProfiles, libcomfo.QueryPacket
  ensures [C19] "asks the unit for exactly this data": n("libcomfo.QueryPacket") == 0 && n("libcomfo.GetFanProfiles") <= 1 && (n("libcomfo.GetFanProfiles") == 1 ==> arg("libcomfo.GetFanProfiles", 1, 0) == comfoserver.comfoConn)
  ensures [C19] "always asks when forced": force ==> n("libcomfo.GetFanProfiles") == 1
  ensures [C19] "asks unforced only if the reading is old": !force && n("libcomfo.GetFanProfiles") == 1 ==> at("libcomfo.GetFanProfiles", 1) - old(c.LastUpdated) > STALE
  ensures [C19] "asks unforced if the reading is old": start() - old(c.LastUpdated) > STALE ==> n("libcomfo.GetFanProfiles") == 1
  ensures [C19] "stores the complete reading": n("libcomfo.GetFanProfiles") == 1 && ret("libcomfo.GetFanProfiles", 1, 1) == nil ==> err == nil && same(c.FanProfiles, ret("libcomfo.GetFanProfiles", 1, 0))
  ensures [C19] "the timestamp is from the refresh": n("libcomfo.GetFanProfiles") == 1 && ret("libcomfo.GetFanProfiles", 1, 1) == nil ==> start() <= c.LastUpdated && c.LastUpdated <= now()
  ensures [C19] "a failed query changes nothing and is reported": n("libcomfo.GetFanProfiles") == 1 && ret("libcomfo.GetFanProfiles", 1, 1) != nil ==> err != nil && unchanged(deref(c))
  ensures [C19] "without a query nothing changes": n("libcomfo.GetFanProfiles") == 0 ==> err == nil && unchanged(deref(c))

func comfoserver.(*ErrorsCache).Update(c, force) (err)
  modifies c
  events libcomfo.GetErrors, libcomfo.QueryPacket
  ensures [C19] "asks the unit for exactly this data": n("libcomfo.QueryPacket") == 0 && n("libcomfo.GetErrors") <= 1 && (n("libcomfo.GetErrors") == 1 ==> arg("libcomfo.GetErrors", 1, 0) == comfoserver.comfoConn)
  ensures [C19] "always asks when forced": force ==> n("libcomfo.GetErrors") == 1
  ensures [C19] "asks unforced only if the reading is old": !force && n("libcomfo.GetErrors") == 1 ==> at("libcomfo.GetErrors", 1) - old(c.LastUpdated) > STALE
  ensures [C19] "asks unforced if the reading is old": start() - old(c.LastUpdated) > STALE ==> n("libcomfo.GetErrors") == 1
  ensures [C19] "stores the complete reading": n("libcomfo.GetErrors") == 1 && ret("libcomfo.GetErrors", 1, 1) == nil ==> err == nil && same(c.Errors, ret("libcomfo.GetErrors", 1, 0))
  ensures [C19] "the timestamp is from the refresh": n("libcomfo.GetErrors") == 1 && ret("libcomfo.GetErrors", 1, 1) == nil ==> start() <= c.LastUpdated && c.LastUpdated <= now()
  ensures [C19] "a failed query changes nothing and is reported": n("libcomfo.GetErrors") == 1 && ret("libcomfo.GetErrors", 1, 1) != nil ==> err != nil && unchanged(deref(c))
  ensures [C19] "without a query nothing changes": n("libcomfo.GetErrors") == 0 ==> err == nil && unchanged(deref(c))

# ---- getters (C20)

func comfoserver.(*BootInfoCache).Protobuf(c) (res)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "every field is the cached one": same(res.MajorVersion, old(c.MajorVersion)) && same(res.MinorVersion, old(c.MinorVersion)) && same(res.BetaVersion, old(c.BetaVersion)) && same(res.DeviceName, old(c.DeviceName))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(deref(c))

func comfoserver.(*Server).GetBootInfo(s, ctx, req) (res, err)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "answers without error": err == nil && res != nil
  ensures [C20] "every field is the cached one": same(res.MajorVersion, old(comfoserver.bootInfoCache.MajorVersion)) && same(res.MinorVersion, old(comfoserver.bootInfoCache.MinorVersion)) && same(res.BetaVersion, old(comfoserver.bootInfoCache.BetaVersion)) && same(res.DeviceName, old(comfoserver.bootInfoCache.DeviceName))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(comfoserver.bootInfoCache)

func comfoserver.(*BypassCache).Protobuf(c) (res)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "every field is the cached one": same(res.Factor, old(c.Factor)) && same(res.Level, old(c.Level)) && same(res.Correction, old(c.Correction)) && same(res.SummerMode, old(c.SummerMode))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(deref(c))

func comfoserver.(*Server).GetBypass(s, ctx, req) (res, err)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "answers without error": err == nil && res != nil
  ensures [C20] "every field is the cached one": same(res.Factor, old(comfoserver.bypassCache.Factor)) && same(res.Level, old(comfoserver.bypassCache.Level)) && same(res.Correction, old(comfoserver.bypassCache.Correction)) && same(res.SummerMode, old(comfoserver.bypassCache.SummerMode))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(comfoserver.bypassCache)

func comfoserver.(*TempCache).Protobuf(c) (res)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "every field is the cached one": same(res.Comfort, old(c.Comfort)) && same(res.OutsideAir, old(c.OutsideAir)) && same(res.SupplyAir, old(c.SupplyAir)) && same(res.InsideAir, old(c.InsideAir)) && same(res.ExhaustAir, old(c.ExhaustAir)) && same(res.GeoHeat, old(c.GeoHeat)) && same(res.Reheating, old(c.Reheating)) && same(res.KitchenHood, old(c.KitchenHood))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(deref(c))

func comfoserver.(*Server).GetTemps(s, ctx, req) (res, err)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "answers without error": err == nil && res != nil
  ensures [C20] "every field is the cached one": same(res.Comfort, old(comfoserver.tempCache.Comfort)) && same(res.OutsideAir, old(comfoserver.tempCache.OutsideAir)) && same(res.SupplyAir, old(comfoserver.tempCache.SupplyAir)) && same(res.InsideAir, old(comfoserver.tempCache.InsideAir)) && same(res.ExhaustAir, old(comfoserver.tempCache.ExhaustAir)) && same(res.GeoHeat, old(comfoserver.tempCache.GeoHeat)) && same(res.Reheating, old(comfoserver.tempCache.Reheating)) && same(res.KitchenHood, old(comfoserver.tempCache.KitchenHood))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(comfoserver.tempCache)

func comfoserver.(*FanCache).Protobuf(c) (res)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "every field is the cached one": same(res.InPercent, old(c.InPercent)) && same(res.OutPercent, old(c.OutPercent)) && same(res.InSpeed, old(c.InSpeed)) && same(res.OutSpeed, old(c.OutSpeed))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(deref(c))

func comfoserver.(*Server).GetFans(s, ctx, req) (res, err)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "answers without error": err == nil && res != nil
  ensures [C20] "every field is the cached one": same(res.InPercent, old(comfoserver.fanCache.InPercent)) && same(res.OutPercent, old(comfoserver.fanCache.OutPercent)) && same(res.InSpeed, old(comfoserver.fanCache.InSpeed)) && same(res.OutSpeed, old(comfoserver.fanCache.OutSpeed))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(comfoserver.fanCache)

func comfoserver.(*FanProfilesCache).Protobuf(c) (res)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "every field is the cached one": same(res.OutAway, old(c.OutAway)) && same(res.OutLow, old(c.OutLow)) && same(res.OutMid, old(c.OutMid)) && same(res.OutHigh, old(c.OutHigh)) && same(res.InFanActive, old(c.InFanActive)) && same(res.InAway, old(c.InAway)) && same(res.InLow, old(c.InLow)) && same(res.InMid, old(c.InMid)) && same(res.InHigh, old(c.InHigh)) && same(res.CurrentOut, old(c.CurrentOut)) && same(res.CurrentIn, old(c.CurrentIn)) && same(res.CurrentMode, old(c.CurrentMode))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(deref(c))

func comfoserver.(*Server).GetFanProfiles(s, ctx, req) (res, err)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "answers without error": err == nil && res != nil
  ensures [C20] "every field is the cached one": same(res.OutAway, old(comfoserver.fanProfilesCache.OutAway)) && same(res.OutLow, old(comfoserver.fanProfilesCache.OutLow)) && same(res.OutMid, old(comfoserver.fanProfilesCache.OutMid)) && same(res.OutHigh, old(comfoserver.fanProfilesCache.OutHigh)) && same(res.InFanActive, old(comfoserver.fanProfilesCache.InFanActive)) && same(res.InAway, old(comfoserver.fanProfilesCache.InAway)) && same(res.InLow, old(comfoserver.fanProfilesCache.InLow)) && same(res.InMid, old(comfoserver.fanProfilesCache.InMid)) && same(res.InHigh, old(comfoserver.fanProfilesCache.InHigh)) && same(res.CurrentOut, old(comfoserver.fanProfilesCache.CurrentOut)) && same(res.CurrentIn, old(comfoserver.fanProfilesCache.CurrentIn)) && same(res.CurrentMode, old(comfoserver.fanProfilesCache.CurrentMode))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(comfoserver.fanProfilesCache)

func comfoserver.(*ErrorsCache).Protobuf(c) (res)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "every field is the cached one": same(res.Filter, old(c.Filter))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(deref(c))

func comfoserver.(*Server).GetErrors(s, ctx, req) (res, err)
  modifies
  events libcomfo.QueryPacket
  ensures [C20] "answers without error": err == nil && res != nil
  ensures [C20] "every field is the cached one": same(res.Filter, old(comfoserver.errorsCache.Filter))
  ensures [C20] "the unit is not contacted": n("libcomfo.QueryPacket") == 0
  ensures [C20] "the reading is left alone": unchanged(comfoserver.errorsCache)

# ---- setting the fan speed (C15, C16)

def BASE = old(comfoserver.fanProfilesCache.CurrentMode)
def TARGET(t) = if t.Abs != 0 then t.Abs else if t.Rel then BASE + 1 else BASE - 1
def BADSPEED(t) = t.Abs != 0 && t.Rel || TARGET(t) < 1 || TARGET(t) > 4
def IN(p, m) = if m == 1 then p.InAway else if m == 2 then p.InLow else if m == 3 then p.InMid else p.InHigh
def OUT(p, m) = if m == 1 then p.OutAway else if m == 2 then p.OutLow else if m == 3 then p.OutMid else p.OutHigh

func comfoserver.(*FanCache).UpdatePoll(c, count, tgtSpeed) (err)
  requires [C16] "polls the shared fan cache": isaddr(c, "comfoserver.fanCache")
  modifies comfoserver.fanCache
  events libcomfo.GetFans, libcomfo.QueryPacket
  ensures [C16] "polls at most count times": n("libcomfo.GetFans") <= (if count > 0 then count else 0)
  ensures [C16] "success only once a reading was taken": err == nil ==> n("libcomfo.GetFans") >= 1 && ret("libcomfo.GetFans", 0, 1) == nil
  ensures [C16] "success only if the latest reading is the profile of the speed": err == nil ==> tgtSpeed >= 1 && tgtSpeed <= 4 && comfoserver.fanCache.InPercent == IN(comfoserver.fanProfilesCache, tgtSpeed) && comfoserver.fanCache.OutPercent == OUT(comfoserver.fanProfilesCache, tgtSpeed)
  ensures [C15,C16] "only readings are requested": n("libcomfo.QueryPacket") == 0

func comfoserver.(*Server).SetFanSpeed(s, ctx, t) (res, err)
  modifies comfoserver.fanCache, comfoserver.fanProfilesCache
  events libcomfo.SetSpeed, libcomfo.GetFanProfiles, libcomfo.QueryPacket, comfoserver.(*FanCache).UpdatePoll
  ensures [C15] "other targets are refused": BADSPEED(t) ==> err != nil && code(err, "invalid_argument") && n("libcomfo.SetSpeed") == 0
  ensures [C15] "nothing else is sent": n("libcomfo.QueryPacket") == 0 && n("libcomfo.SetSpeed") <= 1
  ensures [C15] "the current speed is not sent again": !BADSPEED(t) && TARGET(t) == BASE ==> n("libcomfo.SetSpeed") == 0
  ensures [C15] "sends exactly the target": !BADSPEED(t) && TARGET(t) != BASE ==> n("libcomfo.SetSpeed") == 1 && arg("libcomfo.SetSpeed", 1, 0) == TARGET(t) && arg("libcomfo.SetSpeed", 1, 1) == comfoserver.comfoConn
  ensures [C16] "a refusal of the unit is reported": n("libcomfo.SetSpeed") == 1 && ret("libcomfo.SetSpeed", 1, 0) != nil ==> err != nil
  ensures [C16] "success needs a poll of the speed": n("libcomfo.SetSpeed") == 1 && err == nil ==> n("comfoserver.(*FanCache).UpdatePoll") >= 1 && ret("comfoserver.(*FanCache).UpdatePoll", 0, 0) == nil && arg("comfoserver.(*FanCache).UpdatePoll", 0, 2) == TARGET(t) && arg("comfoserver.(*FanCache).UpdatePoll", 0, 1) <= 1000 && order("comfoserver.(*FanCache).UpdatePoll", 0) > order("libcomfo.SetSpeed", 1)
  ensures [C16] "a failing poll is reported": n("comfoserver.(*FanCache).UpdatePoll") >= 1 && ret("comfoserver.(*FanCache).UpdatePoll", 0, 0) != nil ==> err != nil
  ensures [C16] "a completed change is a success": n("libcomfo.SetSpeed") == 1 && ret("libcomfo.SetSpeed", 1, 0) == nil && n("comfoserver.(*FanCache).UpdatePoll") >= 1 && ret("comfoserver.(*FanCache).UpdatePoll", 0, 0) == nil && n("libcomfo.GetFanProfiles") >= 1 && ret("libcomfo.GetFanProfiles", 0, 1) == nil ==> err == nil
  ensures [C16] "no change is a success": !BADSPEED(t) && TARGET(t) == BASE ==> err == nil
  ensures [C16] "the profiles are refreshed after a change": n("libcomfo.SetSpeed") == 1 && err == nil ==> n("libcomfo.GetFanProfiles") >= 1 && order("libcomfo.GetFanProfiles", 0) > order("libcomfo.SetSpeed", 1)
  ensures [C16] "the refreshed profiles are cached": n("libcomfo.GetFanProfiles") >= 1 && ret("libcomfo.GetFanProfiles", 0, 1) == nil ==> same(comfoserver.fanProfilesCache.FanProfiles, ret("libcomfo.GetFanProfiles", 0, 0))
  ensures [C16] "the answer tells what was done": err == nil ==> (res.Modified <==> n("libcomfo.SetSpeed") == 1) && res.OriginalSpeed == BASE && res.TargetSpeed == TARGET(t)

# ---- setting a fan profile (C17)

def BADPROFILE(t) = t.Mode < 1 || t.Mode > 4 || t.TargetSpeed < 15 || t.TargetSpeed > 100
def WAS(t) = IN(old(comfoserver.fanProfilesCache), t.Mode)

func comfoserver.(*Server).SetFanProfile(s, ctx, t) (res, err)
  modifies comfoserver.fanProfilesCache
  events libcomfo.SetFanProfile, libcomfo.GetFanProfiles, libcomfo.QueryPacket
  ensures [C17] "other profiles and percentages are refused": BADPROFILE(t) ==> err != nil && code(err, "invalid_argument") && events() == 0
  ensures [C17] "nothing else is sent": n("libcomfo.QueryPacket") == 0 && n("libcomfo.SetFanProfile") <= 1
  ensures [C17] "an equal percentage is not sent": !BADPROFILE(t) && WAS(t) == t.TargetSpeed ==> n("libcomfo.SetFanProfile") == 0 && err == nil
  ensures [C17] "sets exactly this profile to this percentage": !BADPROFILE(t) && WAS(t) != t.TargetSpeed ==> n("libcomfo.SetFanProfile") == 1 && arg("libcomfo.SetFanProfile", 1, 0) == t.Mode - 1 && arg("libcomfo.SetFanProfile", 1, 1) == t.TargetSpeed && arg("libcomfo.SetFanProfile", 1, 2) == comfoserver.comfoConn
  ensures [C17] "a failure of the unit is reported": n("libcomfo.SetFanProfile") == 1 && ret("libcomfo.SetFanProfile", 1, 0) != nil ==> err != nil
  ensures [C17] "a completed change is a success": n("libcomfo.SetFanProfile") == 1 && ret("libcomfo.SetFanProfile", 1, 0) == nil && n("libcomfo.GetFanProfiles") >= 1 && ret("libcomfo.GetFanProfiles", 0, 1) == nil ==> err == nil
  ensures [C17] "the profiles are refreshed after a change": n("libcomfo.SetFanProfile") == 1 && ret("libcomfo.SetFanProfile", 1, 0) == nil ==> n("libcomfo.GetFanProfiles") >= 1 && order("libcomfo.GetFanProfiles", 0) > order("libcomfo.SetFanProfile", 1)
  ensures [C17] "the refreshed profiles are cached": n("libcomfo.GetFanProfiles") >= 1 && ret("libcomfo.GetFanProfiles", 0, 1) == nil ==> same(comfoserver.fanProfilesCache.FanProfiles, ret("libcomfo.GetFanProfiles", 0, 0))
  ensures [C17] "the answer tells what was done": err == nil ==> (res.Modified <==> n("libcomfo.SetFanProfile") == 1) && res.OriginalSpeed == WAS(t) && res.TargetSpeed == t.TargetSpeed

# ---- setting the comfort temperature (C18)

def HAD = old(comfoserver.tempCache.Comfort)

func comfoserver.(*Server).SetComfortTemp(s, ctx, t) (res, err)
  modifies comfoserver.tempCache
  events libcomfo.SetComfort, libcomfo.GetTemperatures, libcomfo.QueryPacket, "lock comfoserver.tempCache.CacheLock"
  ensures [C18] "values above 255 are refused": t.ComfortTemp > 255 ==> err != nil && code(err, "invalid_argument") && n("libcomfo.SetComfort") == 0
  ensures [C18] "nothing else is sent": n("libcomfo.QueryPacket") == 0 && n("libcomfo.SetComfort") <= 1
  ensures [C18] "an equal temperature is not sent": t.ComfortTemp <= 255 && HAD == t.ComfortTemp ==> n("libcomfo.SetComfort") == 0 && err == nil
  ensures [C18] "sends exactly this temperature": t.ComfortTemp <= 255 && HAD != t.ComfortTemp ==> n("libcomfo.SetComfort") == 1 && arg("libcomfo.SetComfort", 1, 0) == t.ComfortTemp && arg("libcomfo.SetComfort", 1, 1) == comfoserver.comfoConn
  ensures [C18] "a refusal is reported": n("libcomfo.SetComfort") == 1 && ret("libcomfo.SetComfort", 1, 0) != nil ==> err != nil
  ensures [C18] "a completed change is a success": n("libcomfo.SetComfort") == 1 && ret("libcomfo.SetComfort", 1, 0) == nil && n("libcomfo.GetTemperatures") >= 1 && ret("libcomfo.GetTemperatures", 0, 1) == nil ==> err == nil
  ensures [C18] "the temperatures are refreshed after a change": n("libcomfo.SetComfort") == 1 && ret("libcomfo.SetComfort", 1, 0) == nil ==> n("libcomfo.GetTemperatures") >= 1 && order("libcomfo.GetTemperatures", 0) > order("libcomfo.SetComfort", 1)
  ensures [C18] "the refreshed temperatures are cached": n("libcomfo.GetTemperatures") >= 1 && ret("libcomfo.GetTemperatures", 0, 1) == nil ==> same(comfoserver.tempCache.Temps, ret("libcomfo.GetTemperatures", 0, 0))
  ensures [C18] "the answer tells what was done": err == nil ==> (res.Modified <==> n("libcomfo.SetComfort") == 1) && res.TargetTemp == t.ComfortTemp && (HAD >= 0 && HAD < 4000000000 ==> res.OriginalTemp == trunc(HAD))
  ensures [C18] "one request at a time, from the look at the cache to the refresh": n("libcomfo.SetComfort") == 1 ==> heldset("lock comfoserver.tempCache.CacheLock", 1, "libcomfo.SetComfort", 1) >= 1
  ensures [C18] "the refresh belongs to the request": n("libcomfo.SetComfort") == 1 && n("libcomfo.GetTemperatures") >= 1 ==> heldset("libcomfo.SetComfort", 1, "libcomfo.GetTemperatures", 0) >= 1

# ---- flushing (C22)

func comfoserver.UpdateCaches(force) (err)
  modifies comfoserver.bootInfoCache, comfoserver.bypassCache, comfoserver.tempCache, comfoserver.fanCache, comfoserver.fanProfilesCache, comfoserver.errorsCache
  events comfoserver.(*BootInfoCache).Update, comfoserver.(*BypassCache).Update, comfoserver.(*TempCache).Update, comfoserver.(*FanCache).Update, comfoserver.(*FanProfilesCache).Update, comfoserver.(*ErrorsCache).Update, libcomfo.QueryPacket
  ensures [C22,C23] "every cache is refreshed once": n("comfoserver.(*BootInfoCache).Update") == 1 && isaddr(arg("comfoserver.(*BootInfoCache).Update", 1, 0), "comfoserver.bootInfoCache") && n("comfoserver.(*BypassCache).Update") == 1 && isaddr(arg("comfoserver.(*BypassCache).Update", 1, 0), "comfoserver.bypassCache") && n("comfoserver.(*TempCache).Update") == 1 && isaddr(arg("comfoserver.(*TempCache).Update", 1, 0), "comfoserver.tempCache") && n("comfoserver.(*FanCache).Update") == 1 && isaddr(arg("comfoserver.(*FanCache).Update", 1, 0), "comfoserver.fanCache") && n("comfoserver.(*FanProfilesCache).Update") == 1 && isaddr(arg("comfoserver.(*FanProfilesCache).Update", 1, 0), "comfoserver.fanProfilesCache") && n("comfoserver.(*ErrorsCache).Update") == 1 && isaddr(arg("comfoserver.(*ErrorsCache).Update", 1, 0), "comfoserver.errorsCache")
  ensures [C22,C23] "forced exactly when asked to": (arg("comfoserver.(*BootInfoCache).Update", 1, 1) <==> force) && (arg("comfoserver.(*BypassCache).Update", 1, 1) <==> force) && (arg("comfoserver.(*TempCache).Update", 1, 1) <==> force) && (arg("comfoserver.(*FanCache).Update", 1, 1) <==> force) && (arg("comfoserver.(*FanProfilesCache).Update", 1, 1) <==> force) && (arg("comfoserver.(*ErrorsCache).Update", 1, 1) <==> force)
  ensures [C22] "success exactly if every refresh succeeded": err == nil <==> ret("comfoserver.(*BootInfoCache).Update", 1, 0) == nil && ret("comfoserver.(*BypassCache).Update", 1, 0) == nil && ret("comfoserver.(*TempCache).Update", 1, 0) == nil && ret("comfoserver.(*FanCache).Update", 1, 0) == nil && ret("comfoserver.(*FanProfilesCache).Update", 1, 0) == nil && ret("comfoserver.(*ErrorsCache).Update", 1, 0) == nil
  ensures [C22] "nothing else is requested": n("libcomfo.QueryPacket") == 0

func comfoserver.FlushCaches(k)
  modifies comfoserver.bootInfoCache, comfoserver.bypassCache, comfoserver.tempCache, comfoserver.fanCache, comfoserver.fanProfilesCache, comfoserver.errorsCache
  events libcomfo.GetBootloader, libcomfo.GetBypass, libcomfo.GetTemperatures, libcomfo.GetFans, libcomfo.GetFanProfiles, libcomfo.GetErrors, libcomfo.QueryPacket
  ensures [C22] "exactly one answer": n("send comfoserver.flushSuccess") == 1
  ensures [C22] "nothing else is requested": n("libcomfo.QueryPacket") == 0
  ensures [C22] "BootInfo is refreshed exactly when asked for": n("libcomfo.GetBootloader") == (if k == comfoserver.BootInfo || k == comfoserver.All then 1 else 0)
  ensures [C22] "the answer for BootInfo is true": k == comfoserver.BootInfo ==> (arg("send comfoserver.flushSuccess", 1, 0) <==> ret("libcomfo.GetBootloader", 1, 1) == nil)
  ensures [C22] "Bypass is refreshed exactly when asked for": n("libcomfo.GetBypass") == (if k == comfoserver.Bypass || k == comfoserver.All then 1 else 0)
  ensures [C22] "the answer for Bypass is true": k == comfoserver.Bypass ==> (arg("send comfoserver.flushSuccess", 1, 0) <==> ret("libcomfo.GetBypass", 1, 1) == nil)
  ensures [C22] "Temps is refreshed exactly when asked for": n("libcomfo.GetTemperatures") == (if k == comfoserver.Temps || k == comfoserver.All then 1 else 0)
  ensures [C22] "the answer for Temps is true": k == comfoserver.Temps ==> (arg("send comfoserver.flushSuccess", 1, 0) <==> ret("libcomfo.GetTemperatures", 1, 1) == nil)
  ensures [C22] "Fans is refreshed exactly when asked for": n("libcomfo.GetFans") == (if k == comfoserver.Fans || k == comfoserver.All then 1 else 0)
  ensures [C22] "the answer for Fans is true": k == comfoserver.Fans ==> (arg("send comfoserver.flushSuccess", 1, 0) <==> ret("libcomfo.GetFans", 1, 1) == nil)
  ensures [C22] "FanProfiles is refreshed exactly when asked for": n("libcomfo.GetFanProfiles") == (if k == comfoserver.Profiles || k == comfoserver.All then 1 else 0)
  ensures [C22] "the answer for FanProfiles is true": k == comfoserver.Profiles ==> (arg("send comfoserver.flushSuccess", 1, 0) <==> ret("libcomfo.GetFanProfiles", 1, 1) == nil)
  ensures [C22] "Errors is refreshed exactly when asked for": n("libcomfo.GetErrors") == (if k == comfoserver.All then 1 else 0)
  ensures [C22] "the answer for all is true": k == comfoserver.All ==> (arg("send comfoserver.flushSuccess", 1, 0) <==> ret("libcomfo.GetBootloader", 1, 1) == nil && ret("libcomfo.GetBypass", 1, 1) == nil && ret("libcomfo.GetTemperatures", 1, 1) == nil && ret("libcomfo.GetFans", 1, 1) == nil && ret("libcomfo.GetFanProfiles", 1, 1) == nil && ret("libcomfo.GetErrors", 1, 1) == nil)
  ensures [C22] "an unknown cache is a failure": k != comfoserver.BootInfo && k != comfoserver.Bypass && k != comfoserver.Temps && k != comfoserver.Fans && k != comfoserver.Profiles && k != comfoserver.All ==> !arg("send comfoserver.flushSuccess", 1, 0)

func comfoserver.(*Server).FlushCache(s, ctx, t) (res, err)
  modifies
  ensures [C22] "the request is passed on": n("send comfoserver.flushCache") == 1 && arg("send comfoserver.flushCache", 1, 0) == t.Cache
  ensures [C22] "the answer is the one to this request": n("recv comfoserver.flushSuccess") == 1 && order("recv comfoserver.flushSuccess", 1) > order("send comfoserver.flushCache", 1) && unbuffered(comfoserver.flushCache) && unbuffered(comfoserver.flushSuccess)
  ensures [C22] "the caller gets it": err == nil && (res.Success <==> ret("recv comfoserver.flushSuccess", 1, 0))

# ---- background refreshing (C23)

func comfoserver.StartCaches(conn)
  modifies comfoserver.bootInfoCache, comfoserver.bypassCache, comfoserver.tempCache, comfoserver.fanCache, comfoserver.fanProfilesCache, comfoserver.errorsCache, comfoserver.comfoConn, comfoserver.fastCacheTimer, comfoserver.slowCacheTimer, comfoserver.glacialCacheTimer
  events libcomfo.GetBootloader, libcomfo.GetBypass, libcomfo.GetTemperatures, libcomfo.GetFans, libcomfo.GetFanProfiles, libcomfo.GetErrors, libcomfo.QueryPacket
  ensures [C23] "every cache is refreshed once": n("libcomfo.GetBootloader") == 1 && n("libcomfo.GetBypass") == 1 && n("libcomfo.GetTemperatures") == 1 && n("libcomfo.GetFans") == 1 && n("libcomfo.GetFanProfiles") == 1 && n("libcomfo.GetErrors") == 1
  ensures [C23] "from the given connection": comfoserver.comfoConn == conn && arg("libcomfo.GetBootloader", 1, 0) == conn && arg("libcomfo.GetBypass", 1, 0) == conn && arg("libcomfo.GetTemperatures", 1, 0) == conn && arg("libcomfo.GetFans", 1, 0) == conn && arg("libcomfo.GetFanProfiles", 1, 0) == conn && arg("libcomfo.GetErrors", 1, 0) == conn
  ensures [C23] "each tier has its timer": period(comfoserver.fastCacheTimer) == 5000000000 && period(comfoserver.slowCacheTimer) == 300000000000 && period(comfoserver.glacialCacheTimer) == 3600000000000
  ensures [C23] "one worker is started": n("go") == 1 && arg("go", 1, 0) == "comfoserver.CacheWorker"
  ensures [C23] "the worker finds the timers running": when("go", 1, period(comfoserver.fastCacheTimer) == 5000000000 && period(comfoserver.slowCacheTimer) == 300000000000 && period(comfoserver.glacialCacheTimer) == 3600000000000)

func comfoserver.CacheWorker()
  forever
  modifies comfoserver.bootInfoCache, comfoserver.bypassCache, comfoserver.tempCache, comfoserver.fanCache, comfoserver.fanProfilesCache, comfoserver.errorsCache
  events comfoserver.(*BootInfoCache).Update, comfoserver.(*BypassCache).Update, comfoserver.(*TempCache).Update, comfoserver.(*FanCache).Update, comfoserver.(*FanProfilesCache).Update, comfoserver.(*ErrorsCache).Update, comfoserver.FlushCaches, libcomfo.QueryPacket
  each [C23] "does one thing at a time": n("go") == old(n("go")) && n("libcomfo.QueryPacket") == old(n("libcomfo.QueryPacket"))
  each [C23] "tempCache is offered a refresh exactly by its timer": n("comfoserver.(*TempCache).Update") == old(n("comfoserver.(*TempCache).Update")) + (if selected(comfoserver.fastCacheTimer.C) then 1 else 0)
  each [C23] "tempCache is refreshed without force": n("comfoserver.(*TempCache).Update") > old(n("comfoserver.(*TempCache).Update")) ==> !arg("comfoserver.(*TempCache).Update", 0, 1) && isaddr(arg("comfoserver.(*TempCache).Update", 0, 0), "comfoserver.tempCache")
  each [C23] "fanCache is offered a refresh exactly by its timer": n("comfoserver.(*FanCache).Update") == old(n("comfoserver.(*FanCache).Update")) + (if selected(comfoserver.fastCacheTimer.C) then 1 else 0)
  each [C23] "fanCache is refreshed without force": n("comfoserver.(*FanCache).Update") > old(n("comfoserver.(*FanCache).Update")) ==> !arg("comfoserver.(*FanCache).Update", 0, 1) && isaddr(arg("comfoserver.(*FanCache).Update", 0, 0), "comfoserver.fanCache")
  each [C23] "fanProfilesCache is offered a refresh exactly by its timer": n("comfoserver.(*FanProfilesCache).Update") == old(n("comfoserver.(*FanProfilesCache).Update")) + (if selected(comfoserver.slowCacheTimer.C) then 1 else 0)
  each [C23] "fanProfilesCache is refreshed without force": n("comfoserver.(*FanProfilesCache).Update") > old(n("comfoserver.(*FanProfilesCache).Update")) ==> !arg("comfoserver.(*FanProfilesCache).Update", 0, 1) && isaddr(arg("comfoserver.(*FanProfilesCache).Update", 0, 0), "comfoserver.fanProfilesCache")
  each [C23] "bypassCache is offered a refresh exactly by its timer": n("comfoserver.(*BypassCache).Update") == old(n("comfoserver.(*BypassCache).Update")) + (if selected(comfoserver.slowCacheTimer.C) then 1 else 0)
  each [C23] "bypassCache is refreshed without force": n("comfoserver.(*BypassCache).Update") > old(n("comfoserver.(*BypassCache).Update")) ==> !arg("comfoserver.(*BypassCache).Update", 0, 1) && isaddr(arg("comfoserver.(*BypassCache).Update", 0, 0), "comfoserver.bypassCache")
  each [C23] "bootInfoCache is offered a refresh exactly by its timer": n("comfoserver.(*BootInfoCache).Update") == old(n("comfoserver.(*BootInfoCache).Update")) + (if selected(comfoserver.glacialCacheTimer.C) then 1 else 0)
  each [C23] "bootInfoCache is refreshed without force": n("comfoserver.(*BootInfoCache).Update") > old(n("comfoserver.(*BootInfoCache).Update")) ==> !arg("comfoserver.(*BootInfoCache).Update", 0, 1) && isaddr(arg("comfoserver.(*BootInfoCache).Update", 0, 0), "comfoserver.bootInfoCache")
  each [C23] "errorsCache is offered a refresh exactly by its timer": n("comfoserver.(*ErrorsCache).Update") == old(n("comfoserver.(*ErrorsCache).Update")) + (if selected(comfoserver.glacialCacheTimer.C) then 1 else 0)
  each [C23] "errorsCache is refreshed without force": n("comfoserver.(*ErrorsCache).Update") > old(n("comfoserver.(*ErrorsCache).Update")) ==> !arg("comfoserver.(*ErrorsCache).Update", 0, 1) && isaddr(arg("comfoserver.(*ErrorsCache).Update", 0, 0), "comfoserver.errorsCache")
  each [C23] "a flush request goes to the flush logic": n("comfoserver.FlushCaches") == old(n("comfoserver.FlushCaches")) + (if selected(comfoserver.flushCache) then 1 else 0)
  each [C23] "the request is handed on": n("comfoserver.FlushCaches") > old(n("comfoserver.FlushCaches")) ==> n("recv comfoserver.flushCache") == old(n("recv comfoserver.flushCache")) + 1 && arg("comfoserver.FlushCaches", 0, 0) == ret("recv comfoserver.flushCache", 0, 0)
  ensures [C23] "never stops": false

auto comfoserver C21
