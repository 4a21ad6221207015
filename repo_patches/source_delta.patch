From d5841c15b9e7c9ebd723663e805a27ad6b8c6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 01/24] fix: reciprocal division draws with a maximum of 1
 divide by zero

---
 numba_pokemon_prngs/lcrng/lcrng32.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 1fe0bab..ec814f6 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -163,8 +163,9 @@ def lcrng32_init(
         elif distribution == LCRNG32RandomDistribution.RECIPROCAL_DIVISION:
 
             def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:
-                return np.uint16(self.next_u16()) // np.uint16(
-                    (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                return np.uint16(
+                    np.uint32(self.next_u16())
+                    // np.uint32((np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint32(1))
                 )
 
             def const_rand(
@@ -172,8 +173,11 @@ def lcrng32_init(
             ) -> Callable[[LCRNG32], np.uint16]:
                 @optional_njit(**kwargs)
                 def rand_func(self: LCRNG32) -> np.uint16:
-                    return np.uint16(self.next_u16()) // np.uint16(
-                        (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                    return np.uint16(
+                        np.uint32(self.next_u16())
+                        // np.uint32(
+                            (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint32(1)
+                        )
                     )
 
                 return rand_func
-- 
2.43.0


From e50c27d14ad8a59edf6455a5637a2fcfd05ebfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 02/24] fix: ARNG and ARNGR lack their documented modulo
 distribution

---
 numba_pokemon_prngs/lcrng/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/lcrng/__init__.py b/numba_pokemon_prngs/lcrng/__init__.py
index cf71802..ada5dfc 100644
--- a/numba_pokemon_prngs/lcrng/__init__.py
+++ b/numba_pokemon_prngs/lcrng/__init__.py
@@ -52,6 +52,7 @@ class PokeRNGRDiv(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
 )
 class ARNG(LCRNG32):
     """Alternative Pokemon LCRNG with modulo random distribution"""
@@ -60,6 +61,7 @@ class ARNG(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
     reverse=True,
 )
 class ARNGR(LCRNG32):
-- 
2.43.0


From 3c14f4e7471ffeefbf10fde3438975e1e2a6986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 03/24] fix: LCRNG64 jumps fail for np.uint64 counts (no numba,
 or precompiled jumps)

---
 numba_pokemon_prngs/lcrng/lcrng64.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng64.py b/numba_pokemon_prngs/lcrng/lcrng64.py
index 198f65c..8c5dd69 100644
--- a/numba_pokemon_prngs/lcrng/lcrng64.py
+++ b/numba_pokemon_prngs/lcrng/lcrng64.py
@@ -110,18 +110,20 @@ def lcrng64_init(
             return np.uint64(self.seed)
 
         def jump(self: LCRNG64, adv: np.uint64):
+            adv = np.uint64(adv)
             i = 0
             while adv:
-                if adv & 1:
+                if adv & np.uint64(1):
                     add, mult = jump_table[i]
                     self.seed = np.uint64(
                         np.uint64(self.seed) * np.uint64(mult) + np.uint64(add)
                     )
-                adv >>= 1
+                adv >>= np.uint64(1)
                 i += 1
             return np.uint64(self.seed)
 
         def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG64]]:
+            adv = int(adv)
             i = 0
             mult = np.uint64(1)
             add = np.uint64(0)
-- 
2.43.0


From 1b6f05ba3ff172d01b5e172d1b9cb062313f32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 04/24] fix: TinyMT draws can exceed 32 bits when compiled

---
 numba_pokemon_prngs/mersenne_twister/tinymt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/tinymt.py b/numba_pokemon_prngs/mersenne_twister/tinymt.py
index cec642b..9280944 100644
--- a/numba_pokemon_prngs/mersenne_twister/tinymt.py
+++ b/numba_pokemon_prngs/mersenne_twister/tinymt.py
@@ -79,7 +79,7 @@ class TinyMersenneTwister:
 
         temper_0 ^= temper_1
 
-        return temper_0 ^ ((temper_1 & 1) * np.uint32(0x3793FDFF))
+        return np.uint32(temper_0 ^ ((temper_1 & 1) * np.uint32(0x3793FDFF)))
 
     def next_rand(self, maximum: np.uint32) -> np.uint32:
         """Generate and return the next [0, maximum) random uint
-- 
2.43.0


From 293d2b969d5577f7d07b28d510674b5bae91d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 05/24] fix: Mersenne Twister advances overflow 32 bits without
 numba

---
 numba_pokemon_prngs/mersenne_twister/mt.py   | 8 ++++----
 numba_pokemon_prngs/mersenne_twister/sfmt.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/mt.py b/numba_pokemon_prngs/mersenne_twister/mt.py
index 8f2ed95..874920c 100644
--- a/numba_pokemon_prngs/mersenne_twister/mt.py
+++ b/numba_pokemon_prngs/mersenne_twister/mt.py
@@ -38,11 +38,11 @@ class MersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv += np.uint32(self.index)
-        while adv >= np.uint32(624):
+        adv = np.uint64(adv)
+        adv += np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint32:
diff --git a/numba_pokemon_prngs/mersenne_twister/sfmt.py b/numba_pokemon_prngs/mersenne_twister/sfmt.py
index 6e8280a..9afcf44 100644
--- a/numba_pokemon_prngs/mersenne_twister/sfmt.py
+++ b/numba_pokemon_prngs/mersenne_twister/sfmt.py
@@ -297,11 +297,11 @@ class SIMDFastMersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance SIMD-oriented Fast Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv = (adv * np.uint32(2)) + np.uint32(self.index)
-        while adv >= np.uint32(624):
+        adv = np.uint64(adv)
+        adv = (adv * np.uint64(2)) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint64:
-- 
2.43.0


From a96bff7a9d32b46c093e62de3a16fa1ccb483056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 06/24] fix: RNG lists of anything but uint32 fail to compile

---
 numba_pokemon_prngs/rng_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 828ebbf..ff36720 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -52,7 +52,7 @@ def build_rnglist(
 
     @optional_jitclass(
         {
-            "list": array_type(np.uint32),  # contiguous array
+            "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
             "head": np.uint16,
             "pointer": np.uint16,
-- 
2.43.0


From af0f977b7b9530b1f488283363a8d9c9bf0db80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 07/24] fix: RNG lists of inherited functions fail without
 numba

---
 numba_pokemon_prngs/rng_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index ff36720..b516621 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -46,9 +46,9 @@ def build_rnglist(
             next_function_name
         ]
     else:
-        next_function: Callable[[PRNG], state_type] = rng_class.__dict__[
-            next_function_name
-        ]
+        next_function: Callable[[PRNG], state_type] = getattr(
+            rng_class, next_function_name
+        )
 
     @optional_jitclass(
         {
-- 
2.43.0


From 465cc9c5851bd05b1097a32b3dd1f99a1ce0cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 08/24] fix: functions decorated with a bare optional_njit are
 lost without numba

Without numba, @optional_njit (no arguments) replaced the function by the
decorator's inner wrapper, so calling it raised TypeError or returned its
argument.
---
 numba_pokemon_prngs/compilation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 80ffd70..1ce89e7 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -117,8 +117,8 @@ else:
         return np.ndarray
 
     def return_type(output_type, input_types):
-        """Function that takes inputs and returns the return type based on the output type"""
-        return lambda *args: output_type
+        """Signatures are not used outside of numba"""
+        return None
 
     # pylint enable=unused-argument
 
@@ -167,9 +167,10 @@ def optional_njit(signature_or_function=None, locals=None, **options):
             **options,
         )
 
-    # TODO: support @optional_njit w/o arguments provided
-
     def wrap(func):
         return func
 
+    # used without arguments
+    if callable(signature_or_function):
+        return signature_or_function
     return wrap
-- 
2.43.0


From 1f71004f74e425aa256bb425af1dbe09ccd0fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 09/24] fix: calc_slot rejects the time and weather enums, and
 fails without numba

Record fields were read as attributes of a plain array (AttributeError
without numba), and numba cannot index a column with an IntEnum member.
---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 8301b7b..71f42f7 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -43,9 +43,9 @@ class EncounterAreaLA:
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
-            self.slots.base_probability
-            * self.slots.time_multipliers[:, time]
-            * self.slots.weather_multipliers[:, weather]
+            self.slots["base_probability"]
+            * self.slots["time_multipliers"][:, np.uint8(time)]
+            * self.slots["weather_multipliers"][:, np.uint8(weather)]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0


From 7db1bb0ebd53429a7c1bd0918256d1544e7d2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 10/24] fix: natures modify the wrong stat of speed, special
 attack, special defense

The modifier columns followed the order of natures (speed third), while
compute_stat is indexed by the order of stats (speed last): Jolly raised
special attack and lowered special defense.
---
 numba_pokemon_prngs/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index f1b3ffd..af95486 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -46,9 +46,11 @@ def rotate_right_u64(val: np.uint64, count: np.uint8) -> np.uint64:
 
 
 NATURE_MODIFIERS = np.ones((25, 5), np.float32)
+# natures go by attack, defense, speed, special attack, special defense; stats have speed last
+NATURE_STATS = (0, 1, 4, 2, 3)
 for i in range(25):
-    NATURE_MODIFIERS[i][i % 5] -= 0.1
-    NATURE_MODIFIERS[i][i // 5] += 0.1
+    NATURE_MODIFIERS[i][NATURE_STATS[i % 5]] -= 0.1
+    NATURE_MODIFIERS[i][NATURE_STATS[i // 5]] += 0.1
 
 
 @optional_njit(return_type(np.uint16, (np.uint16, np.uint8, np.uint8)))
-- 
2.43.0


From a817dbaa781ef3f95c7e0c3b974e0f0da91de0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 11/24] fix: hidden power strength is not an integer without
 numba

A true division left a fraction (35.71...) unless the jitclass field cut it.
---
 numba_pokemon_prngs/gen3/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/state.py b/numba_pokemon_prngs/gen3/state.py
index e00c228..f4ff347 100644
--- a/numba_pokemon_prngs/gen3/state.py
+++ b/numba_pokemon_prngs/gen3/state.py
@@ -66,7 +66,7 @@ class State:
                 max_iv = self.ivs[ORDER[index]]
 
         self.hidden_power = hidden_power_val * 15 // 63
-        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 / 63)
+        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 // 63)
         self.characteristic = (char_index * 5) + (max_iv % 5)
 
 
-- 
2.43.0


From b513c94abb5ba50a7165f689a08c550533bf86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 12/24] fix: cute charm is applied to species with one gender
 only

The condition was inverted: mixed-gender species were never affected, and
for genderless or single-gender species the extra call was made and the
search for a personality value of the other gender could not end.
---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 85a8aa6..e0f9af2 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -94,9 +94,9 @@ class WildGenerator3:
             info = self.personal_info_table[species]
             if self.lead == Lead.CUTE_CHARM_M or self.lead == Lead.CUTE_CHARM_F:
                 if 0 < info.gender_ratio < 254:
-                    cute_charm = False
-                else:
                     cute_charm = rand_3(go) != 0
+                else:
+                    cute_charm = False
 
             # pokeblocks
             if rse_safari:
-- 
2.43.0


From 5e52f3c1c2cc6571760b5c6bc20043fda347275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 13/24] fix: get_encounter_rate swaps the rates of grass and
 fishing

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index da621d9..bd826ff 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -194,9 +194,9 @@ def get_encounter_rate(
 ) -> np.uint8:
     """Get encounter rate"""
     if encounter_type == Encounter.GRASS:
-        return encounter_area.fish_rate
+        return encounter_area.land_rate
     if encounter_type == Encounter.ROCK_SMASH:
         return encounter_area.rock_rate
     if encounter_type == Encounter.SURFING:
         return encounter_area.water_rate
-    return encounter_area.land_rate
+    return encounter_area.fish_rate
-- 
2.43.0


From 84f8293990283ecbc3dab47d66bd9640a8534ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 14/24] fix: encounter slot tables are off by one

The loop variable still holds the last entry of the previous slot when the
next one starts, so every slot lost its last roll to the following one: the
first slot had 19% and the last 2%.
---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index bd826ff..189b174 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -15,10 +15,11 @@ def compute_table(ranges: tuple[int], greater: bool = False) -> np.array:
     """Compute encounter slot lookup table"""
     table = np.empty(100, dtype=np.uint8)
 
-    r_val = 99 if greater else 0
+    start = 99 if greater else 0
     for i, range_val in enumerate(ranges):
-        for r_val in range(r_val, range_val, -1 if greater else 1):
+        for r_val in range(start, range_val, -1 if greater else 1):
             table[r_val] = i
+        start = range_val
 
     return table
 
-- 
2.43.0


From 84633c9fa1d8093822a2d6f8258c2d672db2e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 15/24] fix: a failed rock smash check stops the generator from
 moving on

The frame was skipped without advancing the main generator, so every later
frame repeated the failed one.
---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index e0f9af2..b63deab 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -81,6 +81,7 @@ class WildGenerator3:
 
             # RSE uses main rng to check for rock smash encounters
             if rse and self.encounter == Encounter.ROCK_SMASH and rand_2880(go) >= rate:
+                rng.next()
                 continue
 
             encounter_slot = encounter_area_3.calculate_hslot_lead(
-- 
2.43.0


From bdd3d6ae66a5ba4c44689615e0482e0f15097946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 16/24] fix: Diamond and Platinum are the same game

Both had the value 1 << 9, so Platinum was an alias of Diamond and used its
species table.
---
 numba_pokemon_prngs/data/personal/__init__.py | 2 ++
 numba_pokemon_prngs/enums/game.py             | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/__init__.py b/numba_pokemon_prngs/data/personal/__init__.py
index ea9fb4a..b0bce37 100644
--- a/numba_pokemon_prngs/data/personal/__init__.py
+++ b/numba_pokemon_prngs/data/personal/__init__.py
@@ -89,6 +89,8 @@ def get_info_table(game: Game):
         return PERSONAL_INFO_LG
     if game & (Game.DIAMOND | Game.PEARL):
         return PERSONAL_INFO_DP
+    if game & (Game.PLATINUM):
+        return PERSONAL_INFO_PT
     if game & (Game.BLACK | Game.WHITE):
         return PERSONAL_INFO_BW
     if game & (Game.BLACK2 | Game.WHITE2):
diff --git a/numba_pokemon_prngs/enums/game.py b/numba_pokemon_prngs/enums/game.py
index a6a7025..d2eb9c7 100644
--- a/numba_pokemon_prngs/enums/game.py
+++ b/numba_pokemon_prngs/enums/game.py
@@ -14,7 +14,7 @@ class Game(IntEnum):
     LEAF_GREEN = 1 << 4
     GALES = 1 << 5
     COLOSSEUM = 1 << 6
-    DIAMOND = 1 << 9
+    DIAMOND = 1 << 7
     PEARL = 1 << 8
     PLATINUM = 1 << 9
     HEART_GOLD = 1 << 10
-- 
2.43.0


From f2a43100e3f9e53b7c2fd150a79d962b96adc57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 17/24] fix: reading an absent flatbuffer string raises
 AttributeError

The default was decoded as if it were bytes, unlike every other reader.
---
 numba_pokemon_prngs/data/fbs/flatbuffer_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
index 2137ceb..78cb635 100644
--- a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
+++ b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
@@ -136,13 +136,13 @@ class FlatBufferObject:
 
     def read_string(self, position: int, default=None):
         """Read a string at position"""
-        array = default
         pos_offset = self._table.Offset(position)
         if pos_offset:
             array_offset = self._table.Vector(pos_offset)
             array_len = self._table.VectorLen(pos_offset)
             array = self._table.Bytes[array_offset : array_offset + array_len]
-        return array.decode("utf-8")
+            return array.decode("utf-8")
+        return default
 
     def read_init_string(self, default=None):
         """Read a string at the position of self._counter and increment the counter"""
-- 
2.43.0


From aae41337808f334841f26e2da7068843baed5c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 18/24] fix: an interrupted or concurrent cache write leaves an
 unreadable cache

The cache file was written in place: a crash between the first and the last
byte made every later import fail in pickle.loads, and another process could
read the half-written file.
---
 numba_pokemon_prngs/data/encounter/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index e3771bb..019c27c 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -41,11 +41,14 @@ def pickle_cached(filename: str, encode = None, decode = None):
                             return decode(data)
                         return data
             result = function(*args, **kwargs)
-            with open(pkl_filename, "wb+") as pickled_file:
+            # other processes must never see a partially written file
+            temp_filename = f"{pkl_filename}.{os.getpid()}.tmp"
+            with open(temp_filename, "wb") as pickled_file:
                 if encode is not None:
                     pickled_file.write(pickle.dumps(encode(result)))
                 else:
                     pickle.dump(result, pickled_file)
+            os.replace(temp_filename, pkl_filename)
             return result
         return wrapped
     return wrapper
-- 
2.43.0


From 963cc6eee32c684a35e4bc6ceba940d7d3433a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 19/24] fix: optional_jitclass(spec=...) drops the given
 specification

---
 numba_pokemon_prngs/compilation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 1ce89e7..a222b79 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -138,8 +138,9 @@ def optional_jitclass(cls_or_spec=None, spec=None):
         if cls_or_spec is None:
 
             def wrap(cls):
-                spec = convert_spec_cls(None, cls)
-                return numba.experimental.jitclass(cls_or_spec=cls, spec=spec)
+                return numba.experimental.jitclass(
+                    cls_or_spec=cls, spec=convert_spec_cls(spec, cls)
+                )
 
             return wrap
 
-- 
2.43.0


From 3b1521bd5f16e7cc2220c900831fa60efd7ede1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 20/24] fix: generation 1 species records read moves and growth
 one byte late

---
 numba_pokemon_prngs/data/personal/personal_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/personal/personal_info.py b/numba_pokemon_prngs/data/personal/personal_info.py
index e879a2c..93f70b9 100644
--- a/numba_pokemon_prngs/data/personal/personal_info.py
+++ b/numba_pokemon_prngs/data/personal/personal_info.py
@@ -34,13 +34,13 @@ class PersonalInfo1:
     type_2: U8
     catch_rate: U8
     base_exp: U8
-    _padding: unused_bytes(6)
+    _padding: unused_bytes(5)
     move_1: U8
     move_2: U8
     move_3: U8
     move_4: U8
     exp_growth: U8
-    tm_hm: unused_bytes(7)
+    tm_hm: unused_bytes(8)
 
 
 PersonalInfo1.dtype: np.dtype
-- 
2.43.0


From 6477eef566dea26be11b94d7760f9b3d34c89349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 21/24] fix: generation 2 species records read the hatch cycles
 one byte early

---
 numba_pokemon_prngs/data/personal/personal_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/personal_info.py b/numba_pokemon_prngs/data/personal/personal_info.py
index 93f70b9..91d4fe3 100644
--- a/numba_pokemon_prngs/data/personal/personal_info.py
+++ b/numba_pokemon_prngs/data/personal/personal_info.py
@@ -65,8 +65,9 @@ class PersonalInfo2:
     item_1: U8
     item_2: U8
     gender_ratio: U8
+    _padding_0: unused_bytes(1)
     hatch_cycles: U8
-    _padding: unused_bytes(7)
+    _padding_1: unused_bytes(6)
     exp_growth: U8
     egg_group: U8
     tm_hm: unused_bytes(8)
-- 
2.43.0


From a9f67410cbdb54cce76751433f0ba9fb121a7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 22/24] fix: Static forces Psychic slots instead of Electric
 ones

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index 189b174..36d2ee9 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -128,23 +128,8 @@ def get_modified_slots(
     if lead == Lead.MAGNET_PULL:
         lead_type = 8
     elif lead == Lead.STATIC:
-        lead_type = (
-            13
-            if game
-            & (
-                Game.RUBY
-                | Game.SAPPHIRE
-                | Game.EMERALD
-                | Game.FIRE_RED
-                | Game.LEAF_GREEN
-                | Game.DIAMOND
-                | Game.PEARL
-                | Game.PLATINUM
-                | Game.HEART_GOLD
-                | Game.SOUL_SILVER
-            )
-            else 12
-        )
+        # personal data has no slot for the ??? type in any game
+        lead_type = 12
     elif lead == Lead.HARVEST:
         lead_type = 11
     elif lead == Lead.FLASH_FIRE:
-- 
2.43.0


From 00f6291e1f2a061327c8632ee903aa57398ff7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 23/24] fix: RNG lists of more than 65536 entries wrap too
 early when compiled

---
 numba_pokemon_prngs/rng_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index b516621..b985dbc 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -54,8 +54,8 @@ def build_rnglist(
         {
             "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
-            "head": np.uint16,
-            "pointer": np.uint16,
+            "head": np.uint32,
+            "pointer": np.uint32,
         }
     )
     class SpecificRNGList:
-- 
2.43.0


From 4114affa0227a1cb4ca045101e8d543fb4e2b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:14 +0000
Subject: [PATCH 24/24] fix: compiled slot selection in float32 could reach
 slots of zero weight

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 71f42f7..34c2204 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -42,8 +42,9 @@ class EncounterAreaLA:
 
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
+        # integer and float32 arrays would be multiplied in float32 when compiled
         probabilities = (
-            self.slots["base_probability"]
+            self.slots["base_probability"].astype(np.float64)
             * self.slots["time_multipliers"][:, np.uint8(time)]
             * self.slots["weather_multipliers"][:, np.uint8(weather)]
         )
-- 
2.43.0

