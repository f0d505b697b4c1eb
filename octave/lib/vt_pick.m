function r = vt_pick (varargin)
  r = varargin{vt_int(1, nargin)} ;
end
