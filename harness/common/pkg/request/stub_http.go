package request

import (
	"errors"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

//verif:replace HttpCommunicator.GetJSON
//verif:replace HttpCommunicator.SendJSON
//verif:replace HttpCommunicator.SendMessage
//verif:replace HttpCommunicator.Delete

// VerifHTTP stands in for the HTTP connection.
var VerifHTTP struct {
	Get    func(url string) ([]byte, error)
	Post   func(url string, data interface{}) error
	Send   func(url string, message *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error)
	Remove func(url string) error
}

var errNoConnection = errors.New("no connection")

func (c *HttpCommunicator) GetJSON(url string) ([]byte, error) {
	if VerifHTTP.Get == nil {
		return nil, errNoConnection
	}
	return VerifHTTP.Get(url)
}

func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
	if VerifHTTP.Post == nil {
		return errNoConnection
	}
	return VerifHTTP.Post(url, data)
}

func (c *HttpCommunicator) SendMessage(url string, message *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	if VerifHTTP.Send == nil {
		return nil, errNoConnection
	}
	return VerifHTTP.Send(url, message)
}

func (c *HttpCommunicator) Delete(url string) error {
	if VerifHTTP.Remove == nil {
		return errNoConnection
	}
	return VerifHTTP.Remove(url)
}
