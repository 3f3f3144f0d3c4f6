"""Per property: (runs, seconds cap) for each tier and which generator profiles it uses."""
Q = (10**7, 36)
T = (10**9, 780)
PROFILES = {p: {'quick': Q, 'thorough': T} for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20', 'P21')}
