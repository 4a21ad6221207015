"""Reference definition of generation 3 wild encounters (the games' call sequences, exact integers)."""

M32 = 0xFFFFFFFF


def spread(percentages):
    """slot number of each of the rolls 0-99"""
    table = []
    slot = 0
    for share in percentages:
        for _ in range(share):
            table.append(slot)
        slot += 1
    return table


SHARES = {
    "land": spread((20, 20, 10, 10, 10, 10, 5, 5, 4, 4, 1, 1)),
    "water": spread((60, 30, 5, 4, 1)),
    "rock": spread((60, 30, 5, 4, 1)),
    "fish_old": spread((70, 30)),
    "fish_good": spread((60, 20, 20)),
    "fish_super": spread((40, 40, 15, 4, 1)),
}


class Stream:
    """outputs of the generator of the games, one at a time"""

    def __init__(self, seed):
        self.seed = seed

    def next(self):
        self.seed = (self.seed * 0x41C64E6D + 0x6073) & M32
        return self.seed >> 16

    def below(self, n):
        return self.next() % n


def forced(slots, kind_type, table):
    """the slots an ability can force: those of a Pokemon with the type"""
    picked = []
    for slot in slots:
        record = table[slot.species & 0x3FF]
        if record.type_1 == kind_type or record.type_2 == kind_type:
            picked.append(slot)
    return picked


def slot(slots, kind, g):
    return slots[SHARES[kind][g.below(100)]]


def slot_with_lead(slots, kind, g, forces, picked):
    if forces and g.below(2) == 0 and len(picked) != 0:
        return picked[g.below(len(picked))]
    return slot(slots, kind, g)


def level(low, high, g, pressure):
    rand = g.below(high - low + 1)
    if pressure:
        if g.below(2) == 0:
            return high
        if rand != 0:
            rand = rand - 1
    return low + rand


def gender(pid, ratio):
    """0 male, 1 female, 2 none"""
    if ratio == 255:
        return 2
    if ratio == 254:
        return 1
    if ratio == 0:
        return 0
    if (pid & 0xFF) < ratio:
        return 1
    return 0


def shiny(pid, tsv):
    """2 square, 1 star, 0 not"""
    psv = (pid >> 16) ^ (pid & 0xFFFF)
    if psv == tsv:
        return 2
    if (psv ^ tsv) < 8:
        return 1
    return 0


def letter(pid):
    value = (((pid >> 24) & 3) << 6) | (((pid >> 16) & 3) << 4) | (((pid >> 8) & 3) << 2) | (pid & 3)
    return value % 28


def frame(seed, slots, kind, rate, smash_check, forces, picked, pressure, charm, extra, sync, lead, unskip, skip, table, tsv):
    """the Pokemon met when the game's generator holds `seed`; None where rock smash meets nothing.
    charm: 0 no, 1 the lead is female, 2 the lead is male"""
    g = Stream(seed)
    if smash_check and g.below(2880) >= rate * 16:
        return None
    chosen = slot_with_lead(slots, kind, g, forces, picked)
    species = int(chosen.species) & 0x7FF
    form = int(chosen.species) >> 11
    lvl = level(int(chosen.min_level), int(chosen.max_level), g, pressure)
    ratio = int(table[species].gender_ratio)
    charmed = False
    if charm != 0:
        if 0 < ratio < 254:
            charmed = g.below(3) != 0
    if extra:
        g.next()
    if sync:
        nature = lead if g.below(2) == 0 else g.below(25)
    else:
        nature = g.below(25)
    pid = g.next() | (g.next() << 16)
    while (pid % 25) != nature or (charmed and (((pid & 0xFF) < ratio) if charm == 1 else ((pid & 0xFF) >= ratio))) or (
            species == 201 and letter(pid) != form):
        pid = g.next() | (g.next() << 16)
    if unskip:
        g.next()
    iv1 = g.next()
    if skip:
        g.next()
    iv2 = g.next()
    return (pid, species, form,
            (iv1 & 31, (iv1 >> 5) & 31, (iv1 >> 10) & 31, (iv2 >> 5) & 31, (iv2 >> 10) & 31, iv2 & 31),
            pid & 1, lvl, shiny(pid, tsv))


# ---- attributes of a Pokemon
def hidden_power_type(ivs):
    """ivs in order hp, attack, defence, special attack, special defence, speed"""
    bits = (ivs[0] & 1) + 2 * (ivs[1] & 1) + 4 * (ivs[2] & 1) + 8 * (ivs[5] & 1) + 16 * (ivs[3] & 1) + 32 * (ivs[4] & 1)
    return bits * 15 // 63


def hidden_power_strength(ivs):
    bits = ((ivs[0] >> 1) & 1) + 2 * ((ivs[1] >> 1) & 1) + 4 * ((ivs[2] >> 1) & 1) + 8 * ((ivs[5] >> 1) & 1) \
        + 16 * ((ivs[3] >> 1) & 1) + 32 * ((ivs[4] >> 1) & 1)
    return 30 + bits * 40 // 63


def characteristic(pid, ivs):
    """the highest value decides; ties go to the first stat from pid mod 6 on (speed before the special stats)"""
    order = (ivs[0], ivs[1], ivs[2], ivs[5], ivs[3], ivs[4])
    start = pid % 6
    best = 0
    which = start
    for k in range(6):
        at = (start + k) % 6
        if order[at] > best:
            best = order[at]
            which = at
    return which * 5 + best % 5


def stat(base, iv, lvl):
    return (2 * base + iv) * lvl // 100


def frames(seed, count, slots, kind, rate, smash_check, forces, picked, pressure, charm, extra, sync, lead, unskip, skip, table, tsv):
    """what each of the `count` frames from `seed` on gives"""
    found = []
    for _ in range(count):
        met = frame(seed, slots, kind, rate, smash_check, forces, picked, pressure, charm, extra, sync, lead, unskip, skip, table, tsv)
        if met is not None:
            found.append(met)
        seed = (seed * 0x41C64E6D + 0x6073) & M32
    return found


class Watch:
    """a list of results of which only the length and the entry number `k` are kept"""

    def __init__(self, k):
        self.k = k
        self.n = 0
        self.advance = 0
        self.pid = 0
        self.species = 0
        self.form = 0
        self.iv0 = 0
        self.iv1 = 0
        self.iv2 = 0
        self.iv3 = 0
        self.iv4 = 0
        self.iv5 = 0
        self.ability = 0
        self.level = 0
        self.shiny = 0

    def take(self, state):
        self.put(int(state.advance), int(state.pid), int(state.species), int(state.form), state.ivs, int(state.ability), int(state.level), int(state.shiny))

    def put(self, advance, pid, species, form, ivs, ability, level, shiny):
        if self.n == self.k:
            self.advance = advance
            self.pid = pid
            self.species = species
            self.form = form
            self.iv0 = int(ivs[0])
            self.iv1 = int(ivs[1])
            self.iv2 = int(ivs[2])
            self.iv3 = int(ivs[3])
            self.iv4 = int(ivs[4])
            self.iv5 = int(ivs[5])
            self.ability = ability
            self.level = level
            self.shiny = shiny
        self.n = (self.n + 1) & M32


def visit(watch, seed, first, count, slots, kind, rate, smash_check, forces, picked, pressure, charm, extra, sync, lead, unskip, skip, table, tsv):
    """meet what each of `count` frames gives, the first frame being number `first` and generated from `seed`"""
    for k in range(first, first + count):
        met = frame(seed, slots, kind, rate, smash_check, forces, picked, pressure, charm, extra, sync, lead, unskip, skip, table, tsv)
        if met is not None:
            watch.put(k, met[0], met[1], met[2], met[3], met[4], met[5], met[6])
        seed = (seed * 0x41C64E6D + 0x6073) & M32


# ---- what is displayed of a Pokemon
def rows(advance, species, form, level, pid, nature, ability_index, ability, power, strength, sex, pid_text, ivs, stats,
         species_names, ability_names, nature_names, type_names, symbols):
    name = species_names[species]
    if form != 0:
        name = name + "-" + str(form)
    shown = ""
    for k in range(6):
        if k:
            shown = shown + "/"
        shown = shown + str(ivs[k])
    shown_stats = ""
    for k in range(6):
        if k:
            shown_stats = shown_stats + "/"
        shown_stats = shown_stats + str(stats[k])
    return (
        ("Advance", str(advance)),
        ("Species", name),
        ("Level", str(level)),
        ("PID", pid_text),
        ("Nature", nature_names[nature]),
        ("Ability", ability_names[ability_index] + " (" + str(ability) + ")"),
        ("IVs", shown),
        ("Stats", shown_stats),
        ("HP", type_names[power + 1] + " (" + str(strength) + ")"),
        ("Gender", symbols[sex]),
    )


def joined(rows):
    text = ""
    first = True
    for field, value in rows:
        if not first:
            text = text + ", "
        text = text + field + ": " + value
        first = False
    return text
