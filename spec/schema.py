"""Reference schema of the serialized tables: attribute -> (slot, kind, ...)."""

SCHEMA = {
    "Vec3F": {"x": (0, "float", None), "y": (1, "float", None), "z": (2, "float", None)},
    "EncounterMultiplier8a": {"species": (0, "Int32Flags", None), "form": (1, "Int32Flags", 0), "time_of_day_multipliers": (2, "floats", 4, ()),
                              "weather_multipliers": (6, "floats", 8, (1.0,))},
    "PokeMisc8a": {"species": (0, "Int32Flags", None), "form": (1, "Int32Flags", 0), "alpha_level_index": (6, "Int32Flags", 0)},
    "PlacementParameters8a": {"coordinates": (7, "object", "Vec3F")},
    "PlacementSpawner8aF20": {"encounter_table_id": (0, "Uint64Flags", None)},
    "PlacementSpawner8a": {"spawner_id": (0, "Uint64Flags", None), "group_id": (1, "Uint64Flags", None),
                           "coordinates": (2, "first", "PlacementParameters8a", "coordinates"),
                           "min_spawn_count": (7, "Int32Flags", None), "max_spawn_count": (8, "Int32Flags", None),
                           "is_mass_outbreak": (10, "flag", None), "is_water": (11, "flag", None), "is_sky": (12, "flag", None),
                           "encounter_table_id": (20, "first", "PlacementSpawner8aF20", "encounter_table_id")},
    "EncounterEligibilityTraits8a": {"time_of_day_multipliers": (7, "floats", 4, ()), "weather_multipliers": (11, "floats", 8, (1.0,))},
    "EncounterOybnTraits8a": {"is_alpha": (0, "any", 2)},
    "EncounterSlot8a": {"species": (0, "Int32Flags", None), "gender": (2, "Int32Flags", 0), "form": (3, "Int32Flags", None),
                        "guaranteed_ivs": (25, "Int32Flags", None), "base_probability": (29, "Int32Flags", None),
                        "override_min_level": (30, "Int32Flags", 0), "override_max_level": (31, "Int32Flags", 0),
                        "encounter_eligibility": (45, "object", "EncounterEligibilityTraits8a"),
                        "is_alpha": (46, "attribute", "EncounterOybnTraits8a", "is_alpha")},
    "EncounterTable8a": {"table_id": (0, "Uint64Flags", None), "min_level": (1, "Int32Flags", None), "max_level": (2, "Int32Flags", None),
                         "encounter_slots": (3, "vector", "EncounterSlot8a")},
    "NewHugeOutbreakSecondWave8a": {"encounter_table_id": (7, "Uint64Flags", None)},
    "NewHugeOutbreakGroup8a": {"hash": (0, "Uint64Flags", None), "wave_details": (1, "vector", "NewHugeOutbreakSecondWave8a"),
                               "first_wave_encounter_table_id": (2, "Uint64Flags", None)},
    "NewHugeOutbreakGroupLotteryDetail8a": {"hash": (0, "Uint64Flags", None)},
    "NewHugeOutbreakGroupLottery8a": {"hash": (0, "Uint64Flags", None), "table_common": (1, "vector", "NewHugeOutbreakGroupLotteryDetail8a"),
                                      "table_rare_1": (2, "vector", "NewHugeOutbreakGroupLotteryDetail8a"),
                                      "table_rare_2": (3, "vector", "NewHugeOutbreakGroupLotteryDetail8a"),
                                      "full_table": (None, "joined", ("table_common", "table_rare_1", "table_rare_2"))},
}

# root objects: the vector they hold, and lookup -> the attributes that make up a key
ROOTS = {
    "EncounterMultiplier8aTable": ("encounter_multipliers", "EncounterMultiplier8a", {"multiplier_lookup": ("species", "form")}),
    "PokeMisc8aTable": ("misc_list", "PokeMisc8a", {"misc_lookup": ("species", "form")}),
    "PlacementSpawner8aTable": ("spawners", "PlacementSpawner8a", {"spawner_table_lookup": ("spawner_id",), "spawner_by_group": ("group_id",)}),
    "EncounterTable8aTable": ("encounter_tables", "EncounterTable8a", {"encounter_table_lookup": ("table_id",)}),
    "NewHugeOutbreakGroupTable8a": ("groups", "NewHugeOutbreakGroup8a", {"group_lookup": ("hash",)}),
    "NewHugeOutbreakGroupLotteryTable8a": ("lottery_groups", "NewHugeOutbreakGroupLottery8a", {"lottery_group_lookup": ("hash",)}),
}
