"""Reference of the Legends: Arceus encounter tables."""

ALPHA_BOOSTS = (0, 15, 15, 15, 20, 20)


class Slot:
    def __init__(self, species, gender, form, guaranteed_ivs, base_probability, override_min_level, override_max_level, eligibility, is_alpha):
        self.species = species
        self.gender = gender
        self.form = form
        self.guaranteed_ivs = guaranteed_ivs
        self.base_probability = base_probability
        self.override_min_level = override_min_level
        self.override_max_level = override_max_level
        self.encounter_eligibility = eligibility
        self.is_alpha = is_alpha


class Multipliers:
    def __init__(self, time, weather):
        self.time_of_day_multipliers = time
        self.weather_multipliers = weather


class Misc:
    def __init__(self, alpha_level_index):
        self.alpha_level_index = alpha_level_index


class Table:
    def __init__(self, table_id, min_level, max_level, slots):
        self.table_id = table_id
        self.min_level = min_level
        self.max_level = max_level
        self.encounter_slots = slots


class Root:
    def __init__(self, tables):
        self.encounter_tables = tables
        self.encounter_table_lookup = {t.table_id: t for t in tables}


class Lookup:
    def __init__(self, entries):
        self.misc_lookup = entries
        self.multiplier_lookup = entries

