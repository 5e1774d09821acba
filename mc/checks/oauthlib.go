package checks

import (
	"context"

	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
)

// stubProvider is an OAuth provider whose answers are data.
type stubProvider struct {
	name     string
	tokenErr error
	userErr  error
	token    oauth.AccessToken
	user     auth.User
	calls    []string
}

func (s *stubProvider) Name() string { return s.name }

func (s *stubProvider) InitiateUrl(redirectUri string, state string, userInfo bool) string {
	s.calls = append(s.calls, "init")
	return "https://" + s.name + ".example/auth?state=" + state
}

func (s *stubProvider) FetchAccessToken(ctx context.Context, redirectUri string, authCode string) (oauth.AccessToken, error) {
	s.calls = append(s.calls, "token "+redirectUri+" "+authCode)
	return s.token, s.tokenErr
}

func (s *stubProvider) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	s.calls = append(s.calls, "user "+t.AccessToken)
	return s.user, s.userErr
}
