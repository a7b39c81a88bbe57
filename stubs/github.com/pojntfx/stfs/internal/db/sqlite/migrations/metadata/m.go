package metadata

func Asset(name string) ([]byte, error)      { return nil, nil }
func AssetDir(name string) ([]string, error) { return nil, nil }
