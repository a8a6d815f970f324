"""Counting datastores for the scenario generators (what the library reports is judged by Ids.tla)."""


def is_server(r, c, s):
    return s >= c or r % c < s


def servers(size, c, s):
    return [r for r in range(size) if is_server(r, c, s)]


def ds_count(size, c, s, per):
    return per * len(servers(size, c, s))
