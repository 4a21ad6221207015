"""Reference layouts: where each field of a species record is, per generation of the games (offset, bytes)."""


def run(start, size, *names):
    return {n: (start + k * size, size) for k, n in enumerate(names)}


STATS = ("hp", "attack", "defense", "speed", "special_attack", "special_defense")
TYPES = ("type_1", "type_2", "catch_rate")
EGG = ("gender_ratio", "hatch_cycles", "base_friendship", "exp_growth", "egg_group_1", "egg_group_2")
WORDS = ("ability_1", "ability_2", "ability_h")

GEN_1 = {**run(0, 1, "gender_ratio", "hp", "attack", "defense", "speed", "special", "type_1", "type_2", "catch_rate", "base_exp"),
         **run(0x0F, 1, "move_1", "move_2", "move_3", "move_4", "exp_growth")}
GEN_2 = {**run(0, 1, "dex_id", "hp", "attack", "defense", "speed", "special_attack", "special_defense", "type_1", "type_2", "catch_rate", "base_exp",
               "item_1", "item_2", "gender_ratio"), "hatch_cycles": (0x0F, 1), **run(0x16, 1, "exp_growth", "egg_group")}
GEN_3 = {**run(0, 1, *STATS, *TYPES, "base_exp"), **run(0x0A, 2, "ev_yield", "item_1", "item_2"), **run(0x10, 1, *EGG),
         **run(0x16, 1, "ability_1", "ability_2", "escape_rate")}
GEN_4 = {**GEN_3, "form_count": (0x29, 1), "form_stats_index": (0x2A, 2)}
GEN_5 = {**run(0, 1, *STATS, *TYPES, "evo_stage"), **run(0x0A, 2, "ev_yield", "item_1", "item_2", "item_3"), **run(0x12, 1, *EGG),
         **run(0x18, 1, *WORDS, "escape_rate"), **run(0x1C, 2, "form_stats_index", "form_sprite"), "form_count": (0x20, 1),
         **run(0x22, 2, "base_exp", "height", "weight")}
Z = {**run(0x4C, 2, "special_z_item", "special_z_base_move", "special_z_move"), "local_variant": (0x52, 1)}
GEN_8 = {**run(0, 1, *STATS, *TYPES, "evo_stage"), **run(0x0A, 2, "ev_yield", "item_1", "item_2", "item_3"), **run(0x12, 1, *EGG),
         **run(0x18, 2, *WORDS, "form_stats_index"), "form_count": (0x20, 1), **run(0x22, 2, "base_exp", "height", "weight")}
GEN_9 = {**run(0, 1, *STATS, *TYPES, "evo_stage"), "ev_yield": (0x0A, 2), **run(0x0C, 1, *EGG), **run(0x12, 2, *WORDS, "form_stats_index"),
         "form_count": (0x1A, 1), **run(0x1C, 1, "is_present_in_game", "dex_group"),
         **run(0x1E, 2, "dex_index", "height", "weight", "hatch_species", "local_form_index", "regional_flags", "regional_form_index")}

LAYOUTS = {
    "PersonalInfo1": (0x1C, GEN_1), "PersonalInfo2": (0x20, GEN_2), "PersonalInfo3": (0x1C, GEN_3), "PersonalInfo4": (0x2C, GEN_4),
    "PersonalInfo5BW": (0x3C, GEN_5), "PersonalInfo5B2W2": (0x4C, GEN_5), "PersonalInfo6XY": (0x40, GEN_5), "PersonalInfo6AO": (0x50, GEN_5),
    "PersonalInfo7": (0x54, {**GEN_5, **Z}), "PersonalInfo7GG": (0x54, {**GEN_5, "go_species": (0x48, 2), **Z}),
    "PersonalInfo8SWSH": (0xB0, {**GEN_8, "species": (0x4C, 2), **run(0x56, 2, "hatch_species", "local_form_index", "regional_flags", "pokedex_index",
                                                                      "regional_form_index"), **run(0xAC, 2, "armor_dex_index", "crown_dex_index")}),
    "PersonalInfo8BDSP": (0x44, {**GEN_8, **run(0x3C, 2, "species", "hatch_species", "hatch_form_index", "pokedex_index")}),
    "PersonalInfo8LA": (0xB0, {**GEN_8, **run(0x56, 2, "hatch_species", "hatch_form_index", "regional_flags", "species", "form", "dex_index_hisui",
                                              *["dex_index_hisui_local_%d" % k for k in range(1, 6)])}),
    "PersonalInfo9SV": (0x44, GEN_9),
}

# the file of a game and the layout it was written with
FILES = {"rs": "PersonalInfo3", "e": "PersonalInfo3", "fr": "PersonalInfo3", "lg": "PersonalInfo3", "dp": "PersonalInfo4", "pt": "PersonalInfo4",
         "bw": "PersonalInfo5BW", "b2w2": "PersonalInfo5B2W2", "xy": "PersonalInfo6XY", "ao": "PersonalInfo6AO", "sm": "PersonalInfo7",
         "uu": "PersonalInfo7", "swsh": "PersonalInfo8SWSH", "bdsp": "PersonalInfo8BDSP", "la": "PersonalInfo8LA"}
GAMES = {"RUBY": "rs", "SAPPHIRE": "rs", "EMERALD": "e", "FIRE_RED": "fr", "LEAF_GREEN": "lg", "DIAMOND": "dp", "PEARL": "dp", "PLATINUM": "pt",
         "BLACK": "bw", "WHITE": "bw", "BLACK2": "b2w2", "WHITE2": "b2w2", "X": "xy", "Y": "xy", "OMEGA_RUBY": "ao", "ALPHA_SAPPHIRE": "ao",
         "SUN": "sm", "MOON": "sm", "ULTRA_SUN": "uu", "ULTRA_MOON": "uu", "SWORD": "swsh", "SHIELD": "swsh", "BRILLIANT_DIAMOND": "bdsp",
         "SHINING_PEARL": "bdsp", "LEGENDS_ARCEUS": "la"}

# members that share a number because the games treat them alike
ALIKE = {"Lead": (("PRESSURE", "HUSTLE", "VITAL_SPIRIT"), ("SUCTION_CUPS", "STICKY_HOLD"), ("COMPOUND_EYES", "SUPER_LUCK"),
                  ("ARENA_TRAP", "ILLUMINATE", "NO_GUARD"))}
NATURES = ("HARDY", "LONELY", "BRAVE", "ADAMANT", "NAUGHTY", "BOLD", "DOCILE", "RELAXED", "IMPISH", "LAX", "TIMID", "HASTY", "SERIOUS", "JOLLY", "NAIVE",
           "MODEST", "MILD", "QUIET", "BASHFUL", "RASH", "CALM", "GENTLE", "SASSY", "CAREFUL", "QUIRKY")
# members whose number is the position of their data in the games
NUMBERS = {"Lead": {"SYNCHRONIZE_" + n: k for k, n in enumerate(NATURES)},
           "LAArea": dict(OBSIDIAN_FIELDLANDS=1, CRIMSON_MIRELANDS=2, COBALT_COASTLANDS=3, CORONET_HIGHLANDS=4, ALABASTER_ICELANDS=5),
           "LATime": dict(DAWN=0, DAY=1, DUSK=2, NIGHT=3),
           "LAWeather": dict(NONE=0, SUNNY=1, CLOUDY=2, RAIN=3, SNOW=4, DROUGHT=5, FOG=6, RAINSTORM=7, SNOWSTORM=8)}
