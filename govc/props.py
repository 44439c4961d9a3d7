"""Per property: runs (label variants), where the replay harness lives, extra assumptions."""
import os, json

I, D, R = 'internal/infra/index', 'internal/infra/delta', 'internal/infra/recdb'

PROPS = {
    'C01': {'roots': ['internal/domain.'], 'replay': ('internal/domain', 'profile', 'TestVerifReplayC01')},
    'C02': {'roots': ['internal/domain.'], 'replay': ('internal/domain', 'profile', 'TestVerifReplayC02')},
    'C03': {'roots': ['internal/domain.'], 'replay': ('internal/domain', 'profile', 'TestVerifReplayC03'),
            'variants': [('C03a', {'float': 'real'}), ('C03b', {'float': 'rnd'})]},
    'C04': {'replay': ('internal/helpers', 'arrays', 'TestVerifReplayC04')},
    'C06': {'replay': ('internal/helpers', 'io', 'TestVerifReplayC06'), 'assumptions': ['the caller does not pass the file a buffer that shares storage with its content', 'truncation sizes up to 2^40 (larger ones are limited by memory)']},
    'C07': {'replay': ('internal/helpers', 'io', 'TestVerifReplayC07')},
    'C08': {'replay': ('internal/infra/delta', 'delta', 'TestVerifReplayC08')},
    'C09': {'replay': (I, 'index', 'TestVerifReplayC09')},
    'C10': {'replay': (R, 'recdb', 'TestVerifReplayC10')},
    'C11': {'replay': [(D, 'delta', 'TestVerifReplayC11'), (I, 'index', 'TestVerifReplayC11'), (R, 'recdb', 'TestVerifReplayC11')]},
    'C18': {'replay': (R, 'recdb', 'TestVerifReplayC18')},
    'C21': {'replay': [(D, 'delta', 'TestVerifReplayC21'), (I, 'index', 'TestVerifReplayC21'), (R, 'recdb', 'TestVerifReplayC21')]},
    'C16': {'replay': (I, 'index', 'TestVerifReplayC16')},
    'C17': {'replay': (I, 'index', 'TestVerifReplayC17')},
    'C12': {'replay': ('internal/infra/delta', 'delta', 'TestVerifReplayC12')},
    'C13': {'replay': (D, 'delta', 'TestVerifReplayC13')},
    'C14': {'replay': (D, 'delta', 'TestVerifReplayC14')},
    'C15': {'replay': (D, 'delta', 'TestVerifReplayC15')},
    'C20': {'replay': [('internal/domain/valueobjects', 'names', 'TestVerifReplayC20'), ('internal/api/shard/dto', 'dto', 'TestVerifReplayC20')]},
    'C19': {'roots': ['internal/domain.'], 'strings': 'id', 'replay': ('internal/domain', 'registry', 'TestVerifReplayC19')},
    'C22': {'roots': ['internal/domain.', 'internal/api/'], 'strings': 'id', 'replay': ('internal/domain', 'registry', 'TestVerifReplayC22')},
    'C23': {'sendlog': True, 'replay': (R, 'actions', 'TestVerifReplayC23')},
    'C26': {'strings': 'id', 'replay': ('internal/api/shard/endpoints', 'endpoints', 'TestVerifReplayC26')},
    'C25': {'strings': 'id', 'elsewhere': ('infra/',), 'replay': [('internal/api/shard', 'config', 'TestVerifReplayC25'), ('internal/domain', 'registry', 'TestVerifReplayC25')]},
    'C05': {'replay': ('internal/helpers', 'arrays', 'TestVerifReplayC05')},
}


def known_findings(verif):
    p = os.path.join(verif, 'known-findings.json')
    if os.path.exists(p):
        return json.load(open(p)).get('findings', [])
    return []
