package sim

func (s *Server) msStmt(p *parser)  { p.fail("todo") }
func (c *catalog) msFill(s *Server) {}

var msCatalogTables = map[string]string{}

func msRewrite(q string) string                        { return q }
func (c *catalog) msFunctions() map[string]interface{} { return nil }
