"""Thorough tier: test of the checker itself, in memory, both ways."""


def self_test(pid, p, scope, conf, seed, report):
    return {}
