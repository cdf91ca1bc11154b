// Package yp is another plugin for the command.
package yp

import "github.com/vito/booklit"

func init() {
	booklit.RegisterPlugin("yp", func(*booklit.Section) booklit.Plugin { return Plugin{} })
}

// Plugin is the plugin.
type Plugin struct{}

// XpHello greets as well.
func (Plugin) XpHello(who string) booklit.Content { return booklit.String("hello " + who + " from yp") }

// YpOnly is just in here.
func (Plugin) YpOnly(c booklit.Content) booklit.Content {
	return booklit.Styled{Style: "italic", Content: c}
}
