// Package xp is yet another plugin for the command.
package xp

import "github.com/vito/booklit"

func init() {
	booklit.RegisterPlugin("zp", func(*booklit.Section) booklit.Plugin { return Plugin{} })
}

// Plugin is the plugin.
type Plugin struct{}

// XpHello greets as well.
func (Plugin) XpHello(who string) booklit.Content { return booklit.String("hello " + who + " from zp") }

// ZpOnly is just in here.
func (Plugin) ZpOnly(c booklit.Content) booklit.Content {
	return booklit.Styled{Style: "bold", Content: c}
}
