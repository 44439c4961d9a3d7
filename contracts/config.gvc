package recengine/internal/api/shard

func NewConfigFromEnv(defaults) (c)
  ensures[C25] host: c != nil && c.Host == ite(getenv("REC_HOST") != "", getenv("REC_HOST"), ite(defaults != nil, old(defaults.Host), "localhost"))
  ensures[C25] port: c.Port == ite(atoiok(getenv("REC_PORT")) && atoival(getenv("REC_PORT")) >= 0, atoival(getenv("REC_PORT")), ite(defaults != nil, old(defaults.Port), 8080))

func (*Config).GetHostPort(c)
  ensures[C25] address: result == c.Host ++ ":" ++ itoa(c.Port)
