function vt_seen (varargin)
% marks the case as non trivial, with the data it is told apart by
  global T
  T.nontriv = T.nontriv + 1 ;
  T.hit = true ;
  s = T.group ;
  for i = 1:numel(varargin)
    x = varargin{i} ;
    if ischar(x), s = [s x(:)'] ; else s = [s sprintf('%.9g,', double(x(:))')] ; end
  end
  h = hash('md5', s) ;
  T.seen{end+1} = h(1:16) ;
end
