package vnet

import (
	"bufio"
	"bytes"
	"fmt"
	"net/http"
)

// HTTP makes a script of an HTTP server that answers every request with what f returns.
func HTTP(f func(r *http.Request) (status int, body []byte)) func(c *Conn) error {
	return func(c *Conn) error {
		var buf []byte
		c.OnData = func(c *Conn, b []byte) {
			buf = append(buf, b...)
			if !bytes.Contains(buf, []byte("\r\n\r\n")) {
				return
			}
			r, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(buf)))
			buf = nil
			if err != nil {
				c.Push([]byte("HTTP/1.1 400 Bad Request\r\nConnection: close\r\nContent-Length: 0\r\n\r\n"))
				c.EOF()
				return
			}
			status, body := f(r)
			if status == 0 { // no answer
				return
			}
			if status < 0 {
				c.Reset()
				return
			}
			h := fmt.Sprintf("HTTP/1.1 %d X\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", status, len(body))
			c.Push(append([]byte(h), body...))
			c.EOF()
		}
		return nil
	}
}
