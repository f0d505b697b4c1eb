function vt_desc (varargin)
  global T
  T.d = sprintf(varargin{:}) ;
  if numel(T.d) > 400, T.d = [T.d(1:400) '...'] ; end
end
